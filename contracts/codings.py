"""C10: encoded dates, forecast times, levels and coordinates.

Decoders (gempakio.decode.gempak.GempakFile), for every code:
    _convert_dattim(yymmdd) / (mmddyyHHMM) == the date named, 0 -> None
    _convert_ftime(t*100000 + hhhmm)       == (name of t, hhh:mm), negative -> None
    _convert_level(v) == v or None if negative;  _make_time(HHMM), _make_date
    _convert_vertical_coord(k) == name of k, four characters otherwise
Writer (GridFile.add_grid followed by _write_column_headers): the words written for an
arbitrary grid decode, by the contracts above and by the code, to what was given.
"""
import datetime

from pyvc.core import Ctx, SInt, SReal, sand, simplies, val_eq
from pyvc.interp import Interp, SObj
from pyvc.models import SDT, STD, Digits, Models, SFmt, sym_datetime
from pyvc import texts

NAMES = ['none', 'pres', 'thta', 'hght', 'sgma', 'dpth', 'hybd', 'pvab', 'pvbl']
TYPES = ['analysis', 'forecast', 'guess', 'initial']


def run(name, body, deadline, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


def interp():
    return Interp(texts.register(Models()))


def var(c, name, lo, hi):
    v = SInt.var(c.fresh_name(name))
    c.assume(sand(v >= lo, v <= hi))
    return v


def as_date(c, d):
    return datetime.datetime(2000, 1, 1) if d is None else d


def body_dattim(c):
    from gempakio.decode.gempak import GempakFile as F
    it = interp()
    form = c.choose(['zero', 'yymmdd', 'mmddyyHHMM', 'make_date', 'make_date_short'])
    if form == 'zero':
        c.oblige('zero', it.call(F._convert_dattim, (0,)) is None)
        return
    d = sym_datetime('d', 1969, 2068)
    y, m, dd = d.year % 100, d.month, d.day
    if form in ('yymmdd', 'make_date_short'):
        w = y * 10000 + m * 100 + dd
        want = SDT(datetime.datetime, year=d.year, month=m, day=dd, hour=0, minute=0)
    else:
        w = m * 10**8 + dd * 10**6 + y * 10**4 + d.hour * 100 + d.minute
        want = d
    if form.startswith('make'):
        c.oblige('make_date', it.call(F._make_date, (w,)) == want.date())
    else:
        c.oblige(form, it.call(F._convert_dattim, (w,)) == want)
    c.cover(form)


def body_ftime(c):
    from gempakio.decode.gempak import GempakFile as F
    it = interp()
    if c.choose(['negative', 'code']) == 'negative':
        v = SInt.var('v')
        c.assume(v < 0)
        c.oblige('negative', it.call(F._convert_ftime, (v,)) is None)
        return
    t, h, m = var(c, 't', 0, 3), var(c, 'h', 0, 999), var(c, 'm', 0, 59)
    name, off = it.call(F._convert_ftime, (t * 100000 + h * 100 + m,))
    for k, nm in enumerate(TYPES):
        if t == k:
            c.oblige('type', name == nm)
    c.oblige('offset', off == STD(h * 60 + m))
    c.cover('ftime')


def body_level(c):
    from gempakio.decode.gempak import GempakFile as F
    it = interp()
    v = SInt.var('v') if c.choose(['int', 'real']) == 'int' else SReal.var('r')
    r = it.call(F._convert_level, (v,))
    if r is None:
        c.oblige('level none', v < 0)
    else:
        c.oblige('level', sand(v >= 0, val_eq(r, v)))
    c.cover('level')


def body_time(c):
    from gempakio.decode.gempak import GempakFile as F
    it = interp()
    h, m = var(c, 'h', 0, 23), var(c, 'm', 0, 59)
    r = it.call(F._make_time, (h * 100 + m,))
    c.oblige('time', r == SDT(datetime.time, hour=h, minute=m, second=0))
    c.cover('time')


def body_coord(c):
    """Every code with a name; four characters for larger codes are checked natively."""
    from gempakio.decode.gempak import GempakGrid as G
    it = interp()
    me = SObj(G)
    k = var(c, 'k', 0, 8)
    r = it.call(it.getattr(me, '_convert_vertical_coord'), (k,))
    for i, nm in enumerate(NAMES):
        if k == i:
            c.oblige('coordinate', r == nm.upper())
    c.cover('coordinate')


class Columns:
    """The set of column headers written so far, of any content."""

    def __init__(self, c):
        self.c, self.added = c, []

    def __contains__(self, x):
        return self.c.choose([True, False])

    def __len__(self):
        return 0

    def add(self, x):
        self.added.append(x)


class Store:
    def __init__(self):
        self.items = []

    def __setitem__(self, k, v):
        self.items.append((k, v))


class Grid0:
    """A grid of any values: only its type, shape and copy are used."""

    shape = (3, 4)

    def copy(self):
        return self


class Words:
    """Stream that keeps the words written."""

    def __init__(self):
        self.words, self.pos = {}, 1

    def word(self):
        return self.pos

    def jump_to(self, w):
        self.pos = w

    def put(self, v):
        self.words[self.pos] = v
        self.pos += 1

    write_int = write_float = write_string = put


def time_arg(c, forms):
    """(argument, type, date, offset in minutes) of an arbitrary date and time argument."""
    tag, form = c.choose(forms)
    if form == 'datetime':
        d = sym_datetime(tag, 1969, 2068)
        return d, 0, d, d.hour * 60 + d.minute
    parts, d = texts.date_text(tag)
    if form == 'text':
        return SFmt(parts), 0, d, d.hour * 60 + d.minute
    typ, n = form[0], int(form[1:])
    kind = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}[typ]
    h, m = 0, 0
    parts = [*parts, typ.lower() if n == 3 else typ]
    if n:
        h = var(c, tag + '.fh', 0, 999)
        parts.append(Digits(h, 3))
    if n == 5:
        m = var(c, tag + '.fm', 0, 59)
        parts.append(Digits(m, 2))
    return SFmt(parts), kind, d, h * 60 + m


FORMS = ['datetime', 'text', *(f'{t}{n}' for t in 'AFVGI' for n in (0, 3, 5))]


def body_written(c, forms, second=None):
    import numpy as np
    from gempakio.decode.gempak import GempakFile as F, GempakGrid as G
    from gempakio.encode.gempak import DataManagementFile as D, GridFile as GF
    M = texts.register(Models())
    g = Grid0()
    isinst = M.m_isinstance

    def m_isinstance(i, a, k):
        if a[0] is g:
            return a[1] is np.ndarray
        return isinst(i, a, k)
    M.reg(isinstance, m_isinstance)
    cols = Columns(c)
    srt = M.m_sorted
    M.reg(sorted, lambda i, a, k: list(a[0].added) if isinstance(a[0], Columns) else (
        [] if isinstance(a[0], Columns) else srt(i, a, k)))
    it = Interp(M, contracts={f'{D.__module__}.{D.__qualname__}._replace_nan':
                              lambda i, f, a, k: a[-1]})
    me = object.__new__(GF)
    me.__dict__.update(
        nx=4, ny=3, columns=0, rows=1, _column_set=cols, _row_set=[], data=Store(),
        column_names=['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2',
                      'GPM3'],
        row_names=['GRID'], column_keys=10, _missing_int=-9999, _missing_float=-9999.)
    it.call(it.getattr(me, '_init_headers'))
    arg, kind, d, off = time_arg(c, [('t1', x) for x in forms])
    lev = SReal.var('levf') if isinstance(arg, SFmt) else SInt.var('lev')
    c.assume(sand(lev >= 0, lev < 2**31))
    kw = {'grid': g, 'parameter_name': 'tmpk', 'level': lev, 'date_time': arg}
    vc = c.choose([None, *NAMES]) if arg is d and not second else 'Pres'
    kw['vertical_coordinate'] = vc
    lev2 = None
    kind2, d2, off2 = 0, None, 0
    if second:
        lev2 = var(c, 'lev2', 0, 2**31 - 1)
        kw['level2'] = lev2
        kw['date_time2'], kind2, d2, off2 = time_arg(c, [('t2', x) for x in second])
        if kind != kind2:
            try:
                it.call(it.getattr(me, 'add_grid'), (), kw)
            except ValueError:
                pass
            return
    it.call(it.getattr(me, 'add_grid'), (), kw)
    c.oblige('one column', len(cols.added) == 1)
    me.column_headers = list(cols.added)
    me.columns = 1
    s = Words()
    it.call(it.getattr(me, '_write_column_headers'), (s,))
    c.oblige('words', sorted(s.words) == list(range(1, 12)))
    w = [s.words[k] for k in range(1, 12)]
    c.oblige('used flag', w[0] == 9999)
    sums = c.state.get('date_add', [])
    if kind == 0 and isinstance(arg, SFmt) and len(arg.parts) > 5:
        c.oblige('analysis time moved once', sum(
            1 for x in sums) == 1 + bool(second and isinstance(kw['date_time2'], SFmt)
                                         and len(kw['date_time2'].parts) > 5))
        c.oblige('analysis date', sums[0][0] == d)
        c.oblige('analysis offset', sums[0][1] == STD(off))
        r = sums[0][2]
        d, off = r, r.hour * 60 + r.minute
        c.assume(sand(r.year >= 1969, r.year <= 2068))
    else:
        c.oblige('not moved', len(sums) <= (1 if second else 0))
    day = SDT(datetime.datetime, year=d.year, month=d.month, day=d.day, hour=0, minute=0)
    c.oblige('GDT1', it.call(F._convert_dattim, (w[1],)) == (day if kind == 0 else d))
    nm, o = it.call(F._convert_ftime, (w[2],))
    c.oblige('GTM1.type', nm == TYPES[kind])
    c.oblige('GTM1.offset', o == STD(off))
    if second:
        if kind2 == 0 and isinstance(kw['date_time2'], SFmt) and len(
                kw['date_time2'].parts) > 5:
            c.oblige('analysis date 2', sums[-1][0] == d2)
            c.oblige('analysis offset 2', sums[-1][1] == STD(off2))
            d2 = sums[-1][2]
            off2 = d2.hour * 60 + d2.minute
            c.assume(sand(d2.year >= 1969, d2.year <= 2068))
        day2 = SDT(datetime.datetime, year=d2.year, month=d2.month, day=d2.day, hour=0,
                   minute=0)
        c.oblige('GDT2', it.call(F._convert_dattim, (w[3],)) == (day2 if kind2 == 0 else d2))
        nm, o = it.call(F._convert_ftime, (w[4],))
        c.oblige('GTM2.type', nm == TYPES[kind2])
        c.oblige('GTM2.offset', o == STD(off2))
        c.oblige('GLV2', val_eq(it.call(F._convert_level, (w[6],)), lev2))
    else:
        c.oblige('GDT2', it.call(F._convert_dattim, (w[3],)) is None)
        c.oblige('GLV2', it.call(F._convert_level, (w[6],)) is None)
    want = lev if isinstance(lev, SInt) else lev.trunc()
    c.oblige('GLV1', val_eq(it.call(F._convert_level, (w[5],)), want))
    c.oblige('GVCD', it.call(it.getattr(SObj(G), '_convert_vertical_coord'), (w[7],))
             == (vc or 'none').upper())
    c.oblige('name', ''.join(w[8:11]) == 'TMPK        ')
    c.cover('written')


def body_rows(c):
    """Row headers of sounding and surface files, after the date is taken apart."""
    from gempakio.decode.gempak import GempakFile as F
    from gempakio.encode import gempak as E
    cls = getattr(E, c.choose(['SoundingFile', 'SurfaceFile']))
    it = interp()
    d = sym_datetime('d', 1969, 2068)
    me = object.__new__(cls)
    me.__dict__.update(rows=1, row_keys=2, row_names=['DATE', 'TIME'], column_names=['STID'],
                       _missing_int=-9999)
    it.call(it.getattr(me, '_init_headers'))
    me.row_headers = [me.make_row_header(d.date(), d.time())]
    s = Words()
    it.call(it.getattr(me, '_write_row_headers'), (s,))
    c.oblige('words', sorted(s.words) == [1, 2, 3])
    c.oblige('used flag', s.words[1] == 9999)
    c.oblige('DATE', it.call(F._make_date, (s.words[2],)) == d.date())
    c.oblige('TIME', it.call(F._make_time, (s.words[3],)) == SDT(
        datetime.time, hour=d.hour, minute=d.minute, second=0))
    c.cover('rows')


BODIES = {
    '_convert_dattim': body_dattim, '_convert_ftime': body_ftime,
    '_convert_level': body_level, '_make_time': body_time,
    '_convert_vertical_coord': body_coord,
    'row headers': body_rows,
}
for _f in FORMS:
    BODIES[f'add_grid {_f}'] = lambda c, f=_f: body_written(c, [f])
for _f in ('datetime', 'text', 'A5', 'V3', 'G5', 'I0'):
    BODIES[f'add_grid {_f} second'] = lambda c, f=_f: body_written(c, [f], FORMS)


if __name__ == '__main__':
    import time
    for n, b in BODIES.items():
        t0 = time.time()
        c = run(n, b, None)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s')
        for o in bad[:6]:
            print('   ', o.name, o.status, str(o.detail)[-700:], o.model)
