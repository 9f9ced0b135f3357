"""Adding entries to a file (C11; arguments unchanged, C12).

add_grid, add_sounding, add_station, for any file (any entries held before, any number of
parameters and levels) and any arguments:
  accepted: the data of the key (row, column) made of the arguments are the data given, copied,
    and no other key is touched; row and column are in the sets of headers, which hold nothing
    else new; counts and sorted headers are those of the sets; the limit of headers holds.
  refused: keys, counts, headers and data are as before.
Every header field is of the one type its place has, so that headers can be sorted.
"""
import datetime

import numpy as np
import z3

from contracts.codings import FORMS, NAMES, time_arg
from contracts.real_decode import zi
from pyvc import filt, texts
from pyvc.core import (Ctx, SInt, SReal, Sym, Unsupported, ctx, is_sym, ite, mkbool, mknot, sand,
                       simplies, sor, val_eq)
from pyvc.dicts import DictOf
from pyvc.interp import Interp
from pyvc.models import Models, SDT, SSeq, SStr, sym_datetime

E = 'gempakio.encode.gempak.'


class Text(Sym):
    """A text of any content, by how it was made."""

    pytype = str

    def __init__(self, *how):
        self.how = how

    def same(self, o):
        return isinstance(o, Text) and self.how == o.how

    def __eq__(self, o):
        return self.same(o)

    __hash__ = Sym.__hash__

    def upper(self):
        return Text('upper', *self.how) if self.how[0] not in ('upper', 'cut') else self

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and not is_sym(k.start) and \
                not is_sym(k.stop):
            return Text('cut', k.start or 0, k.stop, *self.how)
        raise Unsupported('character of a text')

    def sym_len(self):
        n = SInt.of(z3.Const(f'length of {self.how}', z3.IntSort()))
        ctx().assume(n >= 0)
        return n


class Zoned(SDT):
    """A time in a zone."""

    def replace(self, **kw):
        if 'tzinfo' in kw and kw['tzinfo'] is None and len(kw) == 1:
            return SDT(self.pytype, **self.f)
        return Zoned(self.pytype, **super().replace(**kw).f)


class Thing(Sym):
    """A value of no particular kind; a number can be made of it or not."""

    pytype = object

    def __init__(self, name):
        self.name = name
        self.number = None


class Given(Sym):
    """The values of one parameter, as given by the caller."""

    pytype = np.ndarray

    def __init__(self, k):
        self.k = k

    def copy(self):
        return Copied(self)

    def __setitem__(self, k, v):
        ctx().oblige('what the caller gave is not changed', False)


class Copied(Sym):
    pytype = np.ndarray

    def __init__(self, of):
        self.of = of


class Clean(Sym):
    """Values with missing ones replaced."""

    pytype = np.ndarray

    def __init__(self, of):
        self.of = of

    def copy(self):
        return self


class Record(Sym):
    """The named tuple of a file's parameters."""

    pytype = tuple

    def __init__(self, data):
        self.data = data

    def _asdict(self):
        return self


class Params(Sym):
    """namedtuple('Parameters', names): refuses other names than its own."""

    def __init__(self):
        self.made = []
        self.names = None

    def splat(self, d):
        if self.names is None:
            self.names = ctx().choose(['right', 'wrong'])
        if self.names == 'wrong':
            raise TypeError('unexpected keyword')
        r = Record(d)
        self.made.append(r)
        return r


class HeaderSet:
    """The set of headers: any before, one element of interest."""

    def __init__(self, c, name):
        self.c, self.name = c, name
        self.n = SInt.var(f'{name} headers')
        c.assume(self.n >= 0)
        self.x = None
        self.added = []

    def know(self, x):
        if self.x is None:
            self.x = x
            self.member = self.c.choose([True, False])
            if self.member:
                self.c.assume(self.n >= 1)
        else:
            self.c.oblige('one header is made of the arguments', same(self.x, x))

    def __contains__(self, x):
        self.know(x)
        return self.member or bool(self.added)

    def add(self, x):
        self.know(x)
        self.added.append(x)

    def update(self, xs):
        for x in xs:
            self.add(x)

    def length(self):
        return self.n + (1 if self.added and not self.member else 0)


class Sorted(Sym):
    """sorted(headers): the headers, in an order."""

    def __init__(self, of):
        self.of, self.n, self.state = of, of.length(), len(of.added)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and sand(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, Text) or isinstance(b, Text):
        return isinstance(a, Text) and a.same(b)
    if isinstance(a, SDT) or isinstance(b, SDT):
        return a is b or isinstance(a, SDT) and isinstance(b, SDT) and a == b
    return val_eq(a, b)


class Store:
    """self.data: what is stored by the call."""

    def __init__(self):
        self.log = []

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def update(self, d):
        self.log.extend(d.items())


class GridArg(Sym):
    pytype = np.ndarray

    def __init__(self, shape):
        self.shape = shape

    def copy(self):
        return Copied(self)

    def __setitem__(self, k, v):
        ctx().oblige('what the caller gave is not changed', False)


class Info(dict):
    """station_info, a dictionary that may lack some keys and is only read."""

    def __setitem__(self, k, v):
        ctx().oblige('what the caller gave is not changed', False)

    update = pop = setdefault = clear = popitem = __delitem__ = __setitem__


class Data(Sym):
    """The dictionary of values by parameter: any number, only read."""

    pytype = dict

    def __init__(self, n, item):
        self.n, self.item = n, item

    def seq(self):
        q = SSeq(self.n, lambda k: (Text('name', filt.ikey(k)), self.item(k)))
        q.ghosts = ()
        return q

    def items(self):
        return self.seq()

    def __setitem__(self, k, v):
        ctx().oblige('what the caller gave is not changed', False)

    pop = update = setdefault = __delitem__ = __setitem__


def models():
    M = filt.register(texts.register(Models()))
    old_len, old_sorted = M.lookup(len), M.lookup(sorted)
    old_int, old_str = M.lookup(int), M.lookup(str)

    def m_len(i, a, k):
        if isinstance(a[0], HeaderSet):
            return a[0].length()
        return old_len(i, a, k) if old_len else NotImplemented

    def m_sorted(i, a, k):
        if isinstance(a[0], HeaderSet):
            return Sorted(a[0])
        return old_sorted(i, a, k) if old_sorted else NotImplemented

    def m_int(i, a, k):
        x = a[0]
        if isinstance(x, Thing):
            if x.number is None:
                x.number = ctx().choose([SInt.var(x.name), False])
            if x.number is False:
                raise ValueError('invalid literal')
            return x.number
        return old_int(i, a, k) if old_int else NotImplemented

    def m_str(i, a, k):
        if a and isinstance(a[0], Text):
            return a[0]
        return old_str(i, a, k) if old_str else NotImplemented

    def copying(i, a, k):
        if isinstance(a[0], Given):
            return a[0] if k.get('copy') is False else Copied(a[0])
        return a[0] if isinstance(a[0], (Copied, Clean)) else NotImplemented

    def asarray(i, a, k):
        return a[0] if isinstance(a[0], (Given, Copied, Clean)) else NotImplemented
    M.reg(len, m_len)
    M.reg(sorted, m_sorted)
    M.reg(int, m_int)
    M.reg(str, m_str)
    M.reg(np.array, copying)
    M.reg(np.copy, copying)
    M.reg(np.asarray, asarray)

    def isnan(i, a, k):
        if isinstance(a[0], Value):
            return a[0].nan()
        return NotImplemented
    M.reg(np.isnan, isnan)
    return M


class Value(Sym):
    """A number of a report."""

    pytype = float

    def __init__(self, k):
        self.k = k

    def nan(self):
        return mkbool(z3.Function('is nan', z3.IntSort(), z3.BoolSort())(zi(self.k)))


KINDS = {'STID': Text, 'STNM': int, 'SLAT': float, 'SLON': float, 'SELV': int, 'STAT': Text,
         'COUN': Text, 'STD2': Text, 'SPRI': int}


def is_kind(v, kind):
    if kind is Text:
        return isinstance(v, (Text, str))
    if kind is int:
        return isinstance(v, (int, SInt)) and not isinstance(v, bool)
    return isinstance(v, (int, float, SInt, SReal)) and not isinstance(v, bool)


def new(c, name, names):
    import gempakio.encode.gempak as G
    me = object.__new__(getattr(G, name))
    rows, cols = HeaderSet(c, 'row'), HeaderSet(c, 'column')
    lists = ('row headers before', 'column headers before')
    me.__dict__.update(
        _row_set=rows, _column_set=cols, data=Store(), rows=rows.n, columns=cols.n,
        row_headers=lists[0], column_headers=lists[1], _missing_int=-9999,
        _missing_float=-9999.0, row_names=names[0], column_names=names[1],
        parameter_names=['T'], _param_args=Params())
    return me, rows, cols


def unchanged(c, me, rows, cols, what):
    c.cover('refused')
    c.oblige(f'{what}: no data stored', not me.data.log)
    c.oblige(f'{what}: no header added', not rows.added and not cols.added)
    c.oblige(f'{what}: headers as before', (me.row_headers, me.column_headers) == (
        'row headers before', 'column headers before') if isinstance(
            me.row_headers, str) and isinstance(me.column_headers, str) else False)
    c.oblige(f'{what}: counts as before', sand(val_eq(me.rows, rows.n),
                                               val_eq(me.columns, cols.n))
             if me.__class__.__name__ != 'GridFile' else val_eq(me.columns, cols.n))


def accepted(c, me, rows, cols, row, col, limit):
    """Key and data stored, sets and counts."""
    c.oblige('data stored once', len(me.data.log) == 1)
    key, val = me.data.log[0]
    grid = row is None
    c.oblige('under the key of the arguments', same(
        tuple(key) if grid else tuple(map(tuple, key)), col if grid else (row, col)))
    c.oblige('the header is in its set', cols.x is not None and same(tuple(cols.x), col) and
             (cols.member or bool(cols.added)))
    if not grid:
        c.oblige('the row header is in its set', rows.x is not None and same(
            tuple(rows.x), row) and (rows.member or bool(rows.added)))
    new = [(cols, 'column')] + ([] if grid else [(rows, 'row')])
    for s, n in new:
        c.oblige(f'{n} count', val_eq(getattr(me, n + 's'), s.length()))
        h = getattr(me, n + '_headers')
        c.oblige(f'{n} headers are those of the set', isinstance(h, Sorted) and h.of is s and
                 h.state == len(s.added))
    c.oblige('no more headers than a file holds', (1 if grid else rows.length()) +
             cols.length() <= limit)
    return val


def station(name, form):
    """add_sounding, add_station."""
    import gempakio.encode.gempak as G
    sfc = name == 'SurfaceFile'
    names = (['DATE', 'TIME'], ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2',
                                *(['SPRI'] if sfc else [])])

    def body(c):
        M = models()
        lengths = []

        def replace(i, f, a, k):
            x = a[-1]
            ctx().oblige('missing values are replaced in a copy', isinstance(x, Copied))
            return Clean(x)

        def validate(i, f, a, k):
            lengths.append((a[-1], c.choose([True, False])))
            return lengths[-1][1]
        it = Interp(M, contracts={f'{E}DataManagementFile._replace_nan': replace,
                                  f'{E}{name}._validate_length': validate})
        me, rows, cols = new(c, name, names)
        it.call(it.getattr(me, '_init_headers'))
        n = SInt.var('parameters')
        c.assume(n >= 0)
        data = Data(n, Value if sfc else Given)
        bad = None
        args = {'data': data, 'slat': SReal.var('lat'), 'slon': SReal.var('lon')}
        if form == 'bad':
            bad = c.choose(['data', 'slat', 'slon', 'date_time'])
            args[bad] = {'data': [1, 2], 'slat': '1', 'slon': None, 'date_time': 5}[bad]
        d = sym_datetime('d', 1969, 2068)
        if form == 'coordinates':
            args['slat'] = SInt.var('whole lat')
            args['slon'] = SInt.var('whole lon')
        when = None
        if 'date_time' not in args:
            kinds = {'plain': ['datetime'], 'times': ['zoned', 'text', 'lower'] + (
                [] if sfc else ['F3', 'f3', 'F2', 'FF', 'junk'])}.get(form, ['datetime'])
            when = c.choose(kinds)
            if when == 'datetime':
                args['date_time'] = d
            elif when == 'zoned':
                args['date_time'] = Zoned(datetime.datetime, **d.f)
            elif when == 'junk':
                args['date_time'] = '2024-13-01'
            elif when == 'FF':
                args['date_time'] = '202401010000F06F'
            else:
                from pyvc.models import Digits, SFmt
                parts, d = texts.date_text('d')
                if when[0] in 'Ff':
                    h = SInt.var('fh')
                    w = int(when[1])
                    c.assume(sand(h >= 0, h < 10**w))
                    parts = [*parts, when[0], Digits(h, w)]
                args['date_time'] = SFmt(parts)
        info = {}
        if form != 'plain':
            args['station_info'] = None
        else:
            opts = {'station_id': Text('id'), 'station_number': Thing('number'),
                    'elevation': Thing('elevation'), 'state': Text('state'),
                    'country': Text('country'), 'priority': Thing('priority')}
            which = c.choose(['all', 'none', *opts])
            for k, v in opts.items():
                if which == 'all' or k == which:
                    dict.__setitem__(info, k, v)
            info = Info(info)
            args['station_info'] = info
            before = dict(info)
        try:
            it.call(it.getattr(me, 'add_station' if sfc else 'add_sounding'), (), args)
        except (TypeError, ValueError) as e:
            limit = G.MMHDRS
            why = []
            if bad or me._param_args.names == 'wrong' or when in ('junk', 'FF') or any(
                    not ok for _d, ok in lengths) or any(
                    isinstance(v, Thing) and v.number is False for v in info.values()):
                why.append(True)
            if rows.x is not None and cols.x is not None:
                why.append(rows.n + (not rows.member) + cols.n + (not cols.member) > limit)
            c.oblige('refused for a reason', sor(*why) if why else False, repr(e))
            unchanged(c, me, rows, cols, 'refused')
            return
        c.cover('added')
        c.oblige('bad arguments are refused', bad is None and when not in ('junk', 'FF') and
                 me._param_args.names == 'right')
        if info:
            c.oblige('station_info as it was', dict(info) == before if not any(
                is_sym(v) for v in info.values()) else list(info) == list(before) and all(
                    info[k] is before[k] for k in info))
        # what the entry's metadata are
        t = d
        sums = c.state.get('date_add', [])
        if when and when[0] in 'Ff':
            c.oblige('the forecast hour is added to the time', len(sums) == 1 and
                     sums[0][0] == d and sums[0][1].minutes == h * 60 if hasattr(
                         sums[0][1], 'minutes') else len(sums) == 1)
            t = sums[0][2]
        row = (t.date(), t.time())
        num = {k: (info[k].number if k in info else None) for k in
               ('station_number', 'elevation', 'priority')}
        stid = info.get('station_id', '')
        up = stid.upper() if stid != '' else ''
        long = stid != '' and bool(up.sym_len() > 4)

        def four(k):
            v = info.get(k, '')
            return v.upper()[:4] if isinstance(v, Text) else v
        col = [up[:4] if long else up,
               num['station_number'] if num['station_number'] is not None else -9999,
               args['slat'], args['slon'],
               num['elevation'] if num['elevation'] is not None else -9999,
               four('state'), four('country'), up[4:8] if long else '']
        if sfc:
            col.append(num['priority'] if num['priority'] is not None else 0)
        val = accepted(c, me, rows, cols, row, tuple(col), G.MMHDRS)
        for k, v in zip(names[1], cols.x):
            c.oblige(f'{k} is of the kind headers have', is_kind(v, KINDS[k]))
        c.oblige('row header of a date and a time', all(
            isinstance(x, SDT) and not isinstance(x, Zoned) for x in rows.x))
        # the data stored: of each parameter, what was given
        c.oblige('a record of all parameters', isinstance(val, Record) and isinstance(
            val.data, DictOf) and val_eq(val.data.seq.length, n))
        c.oblige('lengths are compared', lengths and all(
            x is val.data and ok for x, ok in lengths))
        g = SInt.var('ghost parameter')
        c.assume(sand(g >= 0, g < n))
        k, v = val.data.seq.item(g)
        c.oblige('under its name, in capitals', same(k, Text('name', filt.ikey(g)).upper()))
        if sfc:
            if bool(Value(g).nan()):
                c.oblige('missing value', v == -9999.0 if not is_sym(v) else False)
            else:
                c.oblige('the value given', isinstance(v, Value) and val_eq(v.k, g))
        else:
            c.oblige('the values given, copied', isinstance(v, Clean) and isinstance(
                v.of.of, Given) and val_eq(v.of.of.k, g))
        c.cover('data')
    return body


def validate(c):
    """_validate_length of a sounding: every list as long as the first, below the limit."""
    import gempakio.common as C
    import gempakio.encode.gempak as G
    from contracts.file_layout import Key, registered

    class Lists(Sym):
        pytype = dict

        def __init__(self, n, f):
            self.n, self.f = n, f

        def one(self, p):
            k = SInt.of(self.f(zi(p)))
            ctx().assume(k >= 0)
            q = SSeq(k, lambda j: None)
            q.ghosts = ()
            return q

        def __getitem__(self, key):
            return self.one(key.p)

        def values(self):
            q = SSeq(self.n, self.one)
            q.ghosts = [g]
            return q
    M = registered()
    old_iter, old_next = M.lookup(iter), M.lookup(next)
    M.reg(iter, lambda i, a, k: a[0] if isinstance(a[0], Lists) else old_iter(i, a, k))
    M.reg(next, lambda i, a, k: Key(0) if isinstance(a[0], Lists) else old_next(i, a, k))
    n, g = SInt.var('parameters'), SInt.var('ghost')
    c.assume(sand(n >= 1, g >= 0, g < n))
    f = z3.Function('length of list', z3.IntSort(), z3.IntSort())
    d = Lists(n, f)
    it = Interp(M)
    r = it.call(G.SoundingFile._validate_length, (d,))
    if bool(r):
        c.cover('valid')
        c.oblige('as long as the first', SInt.of(f(zi(g))) == SInt.of(f(zi(0))))
        c.oblige('below the limit', SInt.of(f(zi(g))) < C.MAX_LEVELS)
    else:
        c.cover('refused')


class Cells(Sym):
    """An array of any shape: an element is its value at an index; missing ones masked in place."""

    pytype = np.ndarray

    def __init__(self):
        self.v = z3.Function('cell', z3.IntSort(), z3.RealSort())
        self.nans = z3.Function('cell is nan', z3.IntSort(), z3.BoolSort())
        self.sets = []

    def at(self, k):
        """Is the element NaN, and its value."""
        n, v = mkbool(self.nans(zi(k))), SReal(self.v(zi(k)))
        for m, w in self.sets:
            hit = m.at(k)
            n, v = sand(n, mknot(hit)), ite(hit, w, v)
        return n, v

    def copy(self):
        r = Cells()
        r.v, r.nans, r.sets = self.v, self.nans, list(self.sets)
        return r

    def __setitem__(self, m, v):
        if not isinstance(m, Mask) or not isinstance(v, (int, float, SReal)):
            raise Unsupported('assignment to cells')
        self.sets.append((m, v))


class Mask(Sym):
    pytype = np.ndarray

    def __init__(self, of, flip=False):
        self.of, self.n, self.flip = of, len(of.sets), flip

    def at(self, k):
        b = mkbool(self.of.nans(zi(k)))
        for m, _v in self.of.sets[:self.n]:
            b = sand(b, mknot(m.at(k)))
        return mknot(b) if self.flip else b

    def __invert__(self):
        r = Mask(self.of, not self.flip)
        r.n = self.n
        return r


def replace_nan(c):
    """Each missing value is the file's missing value, every other as it was."""
    import gempakio.encode.gempak as G
    M = models()
    old = M.lookup(np.isnan)
    M.reg(np.isnan, lambda i, a, k: Mask(a[0]) if isinstance(a[0], Cells) else old(i, a, k))

    def where(i, a, k):
        m, x, y = a
        if not isinstance(m, Mask):
            return NotImplemented
        p, q = (y, x) if m.flip else (x, y)
        if isinstance(p, (int, float)) and q is m.of:
            r = q.copy()
            r.sets.append((m if not m.flip else ~m, p))
            return r
        return NotImplemented
    M.reg(np.where, where)
    it = Interp(M)
    me = object.__new__(G.DataManagementFile)
    me._missing_float = SReal.var('missing value of the file')
    a = Cells()
    r = it.call(it.getattr(me, '_replace_nan'), (a,))
    c.cover('done')
    g = SInt.var('element')
    c.assume(g >= 0)
    c.oblige('an array of the same shape', isinstance(r, Cells) and r.v is a.v)
    isnan, v = r.at(g)
    was, x = mkbool(a.nans(zi(g))), SReal(a.v(zi(g)))
    c.oblige('nothing is left missing', mknot(isnan))
    c.oblige('missing value where missing', simplies(was, v == me._missing_float))
    c.oblige('others as they were', simplies(mknot(was), v == x))


def validate_station(c):
    """_validate_length of a station: one number for each parameter."""
    import gempakio.encode.gempak as G

    class One(Sym):
        pytype = object

        def __init__(self, p):
            self.p = p
    f = z3.Function('is scalar', z3.IntSort(), z3.BoolSort())

    class Dict(Sym):
        pytype = dict

        def values(self):
            q = SSeq(n, One)
            q.ghosts = [g]
            return q
    M = models()
    M.reg(np.isscalar, lambda i, a, k: mkbool(f(zi(a[0].p))) if isinstance(a[0], One)
          else NotImplemented)
    n, g = SInt.var('parameters'), SInt.var('ghost')
    c.assume(sand(n >= 1, g >= 0, g < n))
    it = Interp(M)
    r = it.call(G.SurfaceFile._validate_length, (Dict(),))
    if bool(r):
        c.cover('valid')
        c.oblige('each one number', mkbool(f(zi(g))))
    else:
        c.cover('refused')


def grid(forms, second=None, bad=False):
    def body(c):
        import gempakio.encode.gempak as G
        M = models()
        limit = G.MMHDRS

        def replace(i, f, a, k):
            x = a[-1]
            ctx().oblige('missing values are replaced in a copy', isinstance(x, Copied))
            return Clean(x)
        it = Interp(M, contracts={f'{E}DataManagementFile._replace_nan': replace})
        cn = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']
        me, rows, cols = new(c, 'GridFile', (['GRID'], cn))
        me.nx, me.ny, me.rows = SInt.var('nx'), SInt.var('ny'), 1
        it.call(it.getattr(me, '_init_headers'))
        g = GridArg((me.ny, me.nx))
        level = SInt.var('level')
        name = c.choose(['t', 'tmpk', 'abcdefghijkl']) if not bad else 'tmpk'
        coord = c.choose([None, 'pres', 'HGHT']) if not second else 'pres'
        kw = {'grid': g, 'parameter_name': name, 'vertical_coordinate': coord, 'level': level}
        d = None
        if forms == 'zoned':
            d = sym_datetime('t1', 1969, 2068)
            kw['date_time'], kind, off = Zoned(datetime.datetime, **d.f), 0, None
            off = d.hour * 60 + d.minute
        else:
            kw['date_time'], kind, d, off = time_arg(c, [('t1', x) for x in forms])
        kind2, d2, off2 = 0, None, 0
        lev2 = None
        if second:
            kw['date_time2'], kind2, d2, off2 = time_arg(c, [('t2', x) for x in second])
            if c.choose([True, False]):
                lev2 = kw['level2'] = SInt.var('level 2')
        wrong = None
        if bad:
            wrong, v = c.choose([
                ('grid', [[1.]]), ('grid', GridArg((me.nx + 1, me.ny))),
                ('grid', GridArg((me.ny, me.nx, 1))), ('parameter_name', 3),
                ('parameter_name', 'abcdefghijklm'), ('vertical_coordinate', 3),
                ('vertical_coordinate', 'press'), ('vertical_coordinate', 'qqqq'),
                ('level', '5'), ('level', None), ('date_time', 5), ('date_time', '20240101'),
                ('date_time', '202401010000F006A'), ('date_time', '202413010000'),
                ('level2', '5'), ('date_time2', 5), ('date_time2', '2024'),
                ('date_time2', '202401010000F006'), ('date_time2', '202401320000'),
                ('date_time2', '202401010000F006A')])
            if isinstance(v, GridArg) and len(v.shape) == 2:
                c.assume(mknot(sand(v.shape[0] == me.ny, v.shape[1] == me.nx)))
            kw[wrong] = v
        try:
            it.call(it.getattr(me, 'add_grid'), (), kw)
        except (TypeError, ValueError, KeyError) as e:
            why = [wrong is not None, kind != kind2 and d2 is not None and any(
                isinstance(p, str) for p in getattr(kw['date_time2'], 'parts', ()))]
            if cols.x is not None:
                why.append(1 + cols.n + (not cols.member) > limit)
            c.oblige('refused for a reason', sor(*why), repr(e))
            unchanged(c, me, rows, cols, f'{wrong} refused')
            return
        c.cover('added')
        c.oblige('bad arguments are refused', wrong is None)
        sums = list(c.state.get('date_add', []))

        def moved(d, kind, off, arg, k):
            """An analysis with an offset is stored at its valid time (C10)."""
            if kind == 0 and len(getattr(arg, 'parts', ())) > 5:
                c.oblige('the offset is added to the time', bool(sums) and sums[k][0] == d)
                r = sums[k][2]
                return r, r.hour * 60 + r.minute
            return d, off
        d, off = moved(d, kind, off, kw['date_time'], 0)
        if d2 is not None:
            d2, off2 = moved(d2, kind2, off2, kw['date_time2'], -1)
        x = cols.x
        c.oblige('key: first time', same(x[0], (kind, d)) and not isinstance(x[0][1], Zoned))
        c.oblige('key: offset', sand(x[1][0] == kind, x[1][1] * 60 + x[1][2] == off))
        if d2 is None:
            c.oblige('key: no second time', x[2] == 0)
        else:
            c.oblige('key: second time', same(x[2], (kind2, d2)))
            c.oblige('key: second offset', sand(x[3][0] == kind2,
                                                x[3][1] * 60 + x[3][2] == off2))
        c.oblige('key: levels', sand(val_eq(x[4], level), val_eq(
            x[5], -1 if lev2 is None else lev2)))
        c.oblige('key: coordinate', val_eq(x[6], {None: 0, 'pres': 1, 'HGHT': 3}[coord]))
        c.oblige('key: name', ''.join(x[7:10]) == f'{name.upper():12s}')
        for i, k in enumerate(('pair', 'triple', 'pair or 0', 'triple', 'int', 'int', 'int', 'str',
                               'str', 'str')):
            v = x[i]
            ok = {'pair': isinstance(v, tuple) and len(v) == 2,
                  'triple': isinstance(v, tuple) and len(v) == 3 and all(
                      is_kind(y, int) for y in v),
                  'pair or 0': isinstance(v, tuple) and len(v) == 2 or v == 0,
                  'int': is_kind(v, int), 'str': isinstance(v, str)}[k]
            c.oblige(f'{cn[i]} is of the kind headers have', ok)
        val = accepted(c, me, rows, cols, None, tuple(x), limit)
        c.oblige('the grid given, copied', isinstance(val, Clean) and isinstance(
            val.of, Copied) and val.of.of is g)
    return body


BODIES = {}
for _n in ('SoundingFile', 'SurfaceFile'):
    for _f in ('plain', 'times', 'coordinates', 'bad'):
        BODIES[f'{_n} {_f}'] = station(_n, _f)
BODIES['equal lengths'] = validate
BODIES['one number each'] = validate_station
BODIES['missing values replaced'] = replace_nan
for _f in FORMS:
    BODIES[f'add_grid {_f}'] = grid([_f])
BODIES['add_grid in a zone'] = grid('zoned')
for _f in ('datetime', 'text', 'F3', 'A3'):
    BODIES[f'add_grid {_f} second'] = grid([_f], ('datetime', 'text', 'F3', 'A3'))
BODIES['add_grid refused'] = grid(['datetime'], bad=True)


def run(name, body, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
