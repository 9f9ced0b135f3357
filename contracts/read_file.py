"""What the readers make of the words of a file (C06-C09, C17).

GempakFile.__init__: the signature and the sizes of the navigation and analysis blocks are
    checked; label, file keys, navigation, management record, keys, parts and parameters are
    the words at the places the label names, for any number of parameters.
GempakGrid, GempakSounding, GempakSurface.__init__: row and column headers are the words at
    theirs, for any number of rows and columns, and an arbitrary entry (r, c) is in the
    inventory with the header fields of r and c exactly when its data pointer is not zero.
_unpack_*: the values of an arbitrary requested entry, parameter and level are the words of
    the block its pointer names.
Every read of a number is obliged to use the byte order of the file, every order being tried.
"""
import datetime
import struct

import numpy as np
import z3

from contracts import reading
from contracts.reading import INT, RAWTEXT, REAL, TEXT, Chars, FileWords, read_loop, store_loop
from contracts.real_decode import zi
from pyvc import filt, texts
from pyvc.core import (Ctx, SBool, SInt, SReal, Sym, Unsupported, ctx, is_sym, ite, mknot, sand,
                       simplies, sor, val_eq)
from pyvc.interp import Interp, SObj
from pyvc.models import Models, SSeq, SStr

G = 'gempakio.decode.gempak.'
LABEL = {n: 8 + i for i, n in enumerate((
    'version', 'file_headers', 'file_keys_ptr', 'rows', 'row_keys', 'row_keys_ptr',
    'row_headers_ptr', 'columns', 'column_keys', 'column_keys_ptr', 'column_headers_ptr',
    'parts', 'parts_ptr', 'data_mgmt_ptr', 'data_mgmt_length', 'data_block_ptr', 'file_type',
    'data_source', 'machine_type', 'missing_int'))}
LABEL['missing_float'] = 31
SIGNATURE = 'GEMPAK DATA MANAGEMENT FILE '


def byte(w, k=0):
    """Byte position of word w + k."""
    return 4 * (w - 1 + k)


def at(w, k=0):
    return SInt.of(INT(zi(byte(w, k))))


def real(w, k=0):
    return SReal(REAL(zi(byte(w, k))))


def text(w, k=0, n=4):
    return SStr(TEXT(zi(byte(w, k)), zi(n)))


class Kind(Sym):
    """cls(code)."""

    def __init__(self, cls, code):
        self.cls, self.code = cls, code

    def __eq__(self, o):
        if isinstance(o, Kind):
            return val_eq(self.code, o.code)
        return val_eq(self.code, int(o))

    __hash__ = Sym.__hash__


class Handle:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def models():
    from gempakio import common
    M = filt.register(texts.register(Models()))
    reading.structs(M)
    old = M.enum_of

    def enum_of(interp, cls, v):
        if cls in (common.FileTypes, common.DataTypes):
            return Kind(cls, v)
        return old(interp, cls, v)
    M.enum_of = enum_of
    M.reg(open, lambda i, a, k: Handle())
    M.reg(bytes.decode, lambda i, a, k: a[0].decode() if isinstance(a[0], Chars)
          else NotImplemented)
    M.reg(bytes, lambda i, a, k: a[0] if isinstance(a[0], Chars) else NotImplemented)
    return M


def interp(b, contracts=None, M=None):
    M = M or models()

    def fromfile(i, f, a, k):
        return b
    it = Interp(M, contracts={'gempakio.tools.IOBuffer.fromfile': fromfile, **(contracts or {})})
    it.buffer = b
    b.interp = it
    it.auto_loops = [read_loop, store_loop]
    return it


def new(cls):
    import gempakio.decode.gempak as D
    k = getattr(D, cls)
    return k.__new__(k)


def label_file(c, known):
    """A file whose label has the counts known (others arbitrary)."""
    b = FileWords(c.choose(['', '>']))
    b.version_at = 28
    for n, v in known.items():
        b.known[byte(LABEL[n])] = v
    return b


LAYOUTS = ({'row_keys': 2, 'column_keys': 3, 'parts': 1, 'file_headers': 0},
           {'row_keys': 1, 'column_keys': 2, 'parts': 2, 'file_headers': 2})


def base_init(layout):
    def body(c):
        known = dict(layout)
        b = label_file(c, known)
        for i in range(known['parts']):
            c.assume(at(at(LABEL['parts_ptr']), 3 * known['parts'] + i) >= 0)
        me = new('GempakFile')
        src = []

        def source(i, f, a, k):
            src.append(a[0])
            return ('source', a[0])
        it = interp(b, {f'{G}_data_source': source})
        # everything asked for by the statement of C17 is refused with an error
        good = SStr(RAWTEXT(zi(0), zi(28))) == SIGNATURE
        navb = anlb = None
        if known['file_headers']:
            p = at(LABEL['file_keys_ptr'])
            navb = p + 3 * known['file_headers']
            anlb = navb + 257
            good = sand(good, at(navb) == 256, at(anlb) == 128)
        try:
            it.call(it.getattr(me, '__init__'), ('file',))
        except (TypeError, ValueError) as e:
            c.cover('refused')
            c.oblige('only files of another kind are refused', mknot(good))
            return
        c.cover('read')
        c.oblige('a file of another kind is refused', good)
        lab = me.dm_label
        for n, w in LABEL.items():
            v = getattr(lab, n)
            if n in known:
                c.oblige(f'label {n}', val_eq(v, known[n]))
            elif n == 'file_type':
                c.oblige(f'label {n}', v == Kind(None, at(w)))
            elif n == 'data_source':
                c.oblige(f'label {n}', v[0] == 'source' and val_eq(v[1], at(w)))
            elif n == 'missing_float':
                c.oblige(f'label {n}', val_eq(v, real(w)))
            else:
                c.oblige(f'label {n}', val_eq(v, at(w)))
        c.oblige('byte order', me.prefmt == b.order and
                 me.endian == ('big' if b.order else 'little'))
        c.oblige('the file starts at its start', b.marks[me._start] == 0)
        if known['file_headers']:
            fields = ['grid_definition_type', 'projection', 'left_grid_number',
                      'bottom_grid_number', 'right_grid_number', 'top_grid_number',
                      'lower_left_lat', 'lower_left_lon', 'upper_right_lat',
                      'upper_right_lon', 'proj_angle1', 'proj_angle2', 'proj_angle3']
            nav = me.navigation_block
            for i, n in enumerate(fields):
                v = getattr(nav, n)
                if n == 'projection':
                    c.oblige(f'navigation {n}', v.stage == 1 and
                             val_eq(v.at, byte(navb, 1 + i)) and v.n == 3)
                else:
                    c.oblige(f'navigation {n}', val_eq(v, real(navb, 1 + i)))
            c.oblige('kx', val_eq(me.kx, it.call(int, (real(navb, 5),))))
            c.oblige('ky', val_eq(me.ky, it.call(int, (real(navb, 6),))))
        else:
            c.oblige('no navigation block', me.navigation_block is None and
                     me.analysis_block is None)
        m = at(LABEL['data_mgmt_ptr'])
        for i, n in enumerate(('next_free_word', 'max_free_pairs', 'actual_free_pairs',
                               'last_word')):
            c.oblige(f'management {n}', val_eq(getattr(me.data_management, n), at(m, i)))
        for n in ('row_keys', 'column_keys'):
            ks = list(getattr(me, n))
            c.oblige(f'{n}: number', len(ks) == known[n])
            for i, v in enumerate(ks):
                c.oblige(f'{n}: name', val_eq(v, text(at(LABEL[n + '_ptr']), i)))
        P = known['parts']
        pp = at(LABEL['parts_ptr'])
        c.oblige('parts: number', len(me.parts) == P == len(me.parameters))
        first = 0
        for i, part in enumerate(me.parts):
            c.oblige('part name', val_eq(part.name, text(pp, i)))
            c.oblige('part header length', val_eq(part.header_length, at(pp, P + i)))
            c.oblige('part type', part.data_type == Kind(None, at(pp, 2 * P + i)))
            c.oblige('part parameters', val_eq(part.parameter_count, at(pp, 3 * P + i)))
        counts = [at(pp, 3 * P + i) for i in range(P)]
        total = sum(counts)
        for i in range(P):
            g = SInt.var(f'ghost parameter {i}')
            c.assume(sand(g >= 0, g < counts[i]))
            for j, n in enumerate(('name', 'scale', 'offset', 'bits')):
                v = me.parameters[i][n]
                c.oblige(f'parameters {n}: number', val_eq(v.length, counts[i]))
                w = 4 * P + j * total + sum(counts[:i]) + g
                c.oblige(f'parameter {n}', val_eq(v.item(g), text(pp, w) if n == 'name'
                                                  else at(pp, w)))
        c.cover('all read')
    return body


# -- subclasses ----------------------------------------------------------------------

STATION = ('STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN')
GRIDKEYS = ('GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3')
KEYS = {
    'GempakSounding': (('DATE', 'TIME'), (*STATION[:2], *STATION[2:], 'STD2')),
    'standard': (('DATE', 'TIME'), (*STATION, 'STD2', 'SPRI')),
    'ship': (('GRID',), ('DATE', 'TIME', *STATION, 'STD2', 'SPRI')),
    'climate': ((*STATION, 'STD2', 'SPRI'), ('DATE', 'TIME')),
    'GempakGrid': (('GRID',), GRIDKEYS),
}


class Day(Sym):
    """The date (time) a word encodes (C10)."""

    def __init__(self, kind, word):
        self.kind, self.word = kind, word

    def __eq__(self, o):
        return isinstance(o, Day) and self.kind == o.kind and val_eq(self.word, o.word)

    __hash__ = Sym.__hash__


class When(Sym):
    """datetime.combine(date, time)."""

    def __init__(self, d, t):
        self.d, self.t = d, t

    def __eq__(self, o):
        return isinstance(o, When) and bool(self.d == o.d) and bool(self.t == o.t)

    __hash__ = Sym.__hash__


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


def keyed(title, keys):
    from collections import namedtuple
    return namedtuple(title, [f'k{i}' for i in range(len(keys))])(*keys)


def opened(c, cls, keys, parts=1, nav=False):
    """(reader, buffer, interp): a reader whose GempakFile.__init__ has just returned."""
    b = FileWords(c.choose(['', '>']))
    me = new(cls)
    rows, cols = SInt.of(INT(zi(byte(LABEL['rows'])))), SInt.of(INT(zi(byte(LABEL['columns']))))
    c.assume(sand(rows >= 0, cols >= 0))

    def base(i, f, a, k):
        o = a[0]
        o._buffer = b
        o._start = b.set_mark()
        o.swapped_bytes, o.prefmt = bool(b.order), b.order
        o.endian = 'big' if b.order else 'little'
        o.dm_label = Rec(**{n: at(w) for n, w in LABEL.items() if n != 'missing_float'},
                         missing_float=real(LABEL['missing_float']))
        o.dm_label.parts = parts
        o.row_keys, o.column_keys = keyed('RowKeys', keys[0]), keyed('ColumnKeys', keys[1])
        o.parts = [Rec(name=text(at(LABEL['parts_ptr']), j),
                       header_length=at(at(LABEL['parts_ptr']), parts + j),
                       data_type=Kind(None, at(at(LABEL['parts_ptr']), 2 * parts + j)))
                   for j in range(parts)]
        o.navigation_block = Rec() if nav else None
        b.pos = SInt.var('left at')
        return None
    con = {f'{G}GempakFile.__init__': base}
    for n in ('_make_date', '_make_time'):
        con[f'{G}GempakFile.{n}'] = lambda i, f, a, k, n=n: Day(n, a[-1])
    M = models()
    it = interp(b, con, M)

    def combine(i, slf, a, k):
        return When(*a)
    M.table[(id(type), 'combine')] = combine
    b.used = [(byte(at(LABEL[f'{d}_headers_ptr'])), 4 * (len(ks) + 1))
              for d, ks in zip(('row', 'column'), keys, strict=True)]
    return me, b, it, rows, cols


def heads(dim, keys, k):
    """Header k: its fields by name."""
    p = at(LABEL[f'{dim}_headers_ptr']) + k * (len(keys) + 1)
    out = {}
    for j, n in enumerate(keys):
        v = at(p, 1 + j)
        if n in ('STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3'):
            v = text(p, 1 + j)
        elif n in ('SLAT', 'SLON'):
            v = v / 100
        elif n in ('DATE', 'TIME'):
            v = Day('_make_date' if n == 'DATE' else '_make_time', v)
        out[n] = v
    return out


def headers_read(c, me, keys, r, q, rows, cols):
    n, m = me.row_headers, me.column_headers
    c.oblige('every row header is read', val_eq(len(n) if isinstance(n, list) else n.length,
                                                rows))
    c.oblige('every column header is read', val_eq(len(m) if isinstance(m, list) else m.length,
                                                   cols))
    for dim, ks, k, got in (('row', keys[0], r, me.row_headers),
                            ('column', keys[1], q, me.column_headers)):
        want = heads(dim, ks, k)
        h = got[0] if isinstance(got, list) else got.item(k)
        for n in ks:
            c.oblige(f'{dim} header {n}', val_eq(getattr(h, n), want[n]))


def entry(x, *ks):
    """Values a nest of loops adds at the indices ks."""
    vs = None
    for k in ks:
        ps = [p for p in x.parts if is_sym(p.n)]
        if len(ps) != 1:
            raise Unsupported('parts')
        vs = ps[0].at(k)
        if vs and isinstance(vs[0], filt.Nested) and len(vs) == 1:
            x = vs[0]
    return vs


def pointer(r, q, cols, parts=1, j=0):
    return at(at(LABEL['data_block_ptr']), r * cols * parts + q * parts + j)


def inventory(kind, parts=1):
    cls = 'GempakSounding' if kind == 'GempakSounding' else 'GempakSurface'

    def body(c):
        keys = KEYS[kind]
        me, b, it, rows, cols = opened(c, cls, keys, parts)
        if kind == 'ship':
            c.assume(rows == 1)
        elif kind != 'GempakSounding':
            c.assume(rows != 1) if c.choose([False, True]) else c.assume(rows == 1)
        r, q = SInt.var('ghost row'), SInt.var('ghost column')
        c.assume(sand(r >= 0, r < rows, q >= 0, q < cols))
        def reset():
            b.pos = None
        it.scratch = ([b], reset)
        it.call(it.getattr(me, '__init__'), ('file',))
        headers_read(c, me, keys, r, q, rows, cols)
        c.cover('read')
        if kind != 'GempakSounding':
            c.oblige('layout', me.surface_type == kind)
        x = me._sninfo if kind == 'GempakSounding' else me._sfinfo
        ks = {'ship': (q,), 'climate': (q, r)}.get(kind, (r, q))
        if isinstance(me.row_headers, list):      # its loop is unrolled
            ks = (q,)
        got = entry(x, *ks)
        ptrs = [pointer(r, q, cols, parts, j) for j in range(parts)]
        if kind == 'GempakSounding':
            ptrs = ptrs[:1]
        some = bool(sor(*[p != 0 for p in ptrs]))
        c.oblige('an entry is listed exactly when it has data', bool(got) == some)
        rh, ch = heads('row', keys[0], r), heads('column', keys[1], q)
        if kind == 'climate':
            rh, ch = ch, rh
        if kind == 'ship':
            rh = ch
        for e in got:
            c.cover('listed')
            c.cover('listed')
            for i, v in enumerate((r, q, When(rh['DATE'], rh['TIME']),
                                   ch['STID'] + ch['STD2'] if kind != 'GempakSounding' else
                                   ch['STID'], *[ch[n] for n in STATION[1:]])):
                c.oblige(f'entry {e._fields[i]}', val_eq(e[i], v))
    return body


class Span(Sym):
    """The forecast offset a word encodes."""

    def __init__(self, word):
        self.word = word

    def __eq__(self, o):
        return isinstance(o, Span) and val_eq(self.word, o.word)

    __hash__ = Sym.__hash__


class Later(Sym):
    """Time + offset."""

    def __init__(self, t, d):
        self.t, self.d = t, d


class Time(Day):
    def __bool__(self):
        return True

    def __add__(self, o):
        if not isinstance(o, Span):
            return NotImplemented
        return Later(self, o)


class Coded(Sym):
    """Name of the forecast type of a word."""

    def __init__(self, word):
        self.word = word


def grid_inventory(nav, refused=None):
    def body(c):
        keys = KEYS['GempakGrid']
        me, b, it, rows, cols = opened(c, 'GempakGrid', keys, 1, nav)
        F = f'{G}GempakFile.'

        def dattim(i, f, a, k):
            w = a[-1]
            return None if bool(w == 0) else Time('dattim', w)

        def ftime(i, f, a, k):
            w = a[-1]
            return None if bool(w < 0) else (Coded(w), Span(w))

        def coord(i, f, a, k):
            # the word comes back as text in the order it was read in (or is a code)
            return ('coordinate', a[-1])
        it.contracts.update({f'{F}_convert_dattim': dattim, f'{F}_convert_ftime': ftime,
                             f'{F}_convert_vertical_coord': coord})
        called = []
        for n in ('_get_crs', '_set_coordinates'):
            it.contracts[f'{G}GempakGrid.{n}'] = lambda i, f, a, k, n=n: called.append(n)
        q = SInt.var('ghost column')
        c.assume(sand(rows == 1, q >= 0, q < cols))
        p = at(LABEL['column_headers_ptr']) + q * 11

        def reset():
            b.pos = None
        it.scratch = ([b], reset)

        # every grid has a first time with a forecast offset
        lo = byte(at(LABEL['column_headers_ptr']))

        def facts(pos, v):
            if reading.spaced(pos - lo - 4, 44):
                c.assume(v != 0)
            elif reading.spaced(pos - lo - 8, 44):
                c.assume(v >= 0)
        b.facts = facts
        if refused:     # a projection refused is refused by the reader
            it.contracts[f'{G}GempakGrid._get_crs'] = refused
        try:
            it.call(it.getattr(me, '__init__'), ('file',))
        except NotImplementedError:
            c.cover('refused')
            c.oblige('projection refused', refused is not None)
            return
        c.oblige('a projection refused is not passed over', refused is None)
        c.cover('read')
        c.oblige('navigation', called == (['_get_crs', '_set_coordinates'] if nav else []))
        h = me.column_headers.item(q)
        c.oblige('every column header is read', val_eq(me.column_headers.length, cols))
        got = entry(me._gdinfo, q)
        c.oblige('one entry for each grid', len(got) == 1)
        (e,) = got

        def time(v, j):
            return isinstance(v, Time) and bool(val_eq(v.word, at(p, j)))

        def span(v, j):
            return isinstance(v, Span) and bool(val_eq(v.word, at(p, j)))

        def level(v, j):
            return at(p, j) < 0 if v is None else val_eq(v, at(p, j))
        c.oblige('header GDT1', time(h.GDT1, 1))
        c.oblige('header GTM1', val_eq(h.GTM1[0].word, at(p, 2)) and span(h.GTM1[1], 2))
        c.oblige('header GDT2', at(p, 3) == 0 if h.GDT2 is None else time(h.GDT2, 3))
        c.oblige('header GTM2', at(p, 4) < 0 if h.GTM2 is None else span(h.GTM2[1], 4))
        for n, j in (('GLV1', 5), ('GLV2', 6)):
            c.oblige(f'header {n}', level(getattr(h, n), j))
        c.oblige('header GVCD', val_eq(h.GVCD[1], at(p, 7)))
        for n, j in (('GPM1', 8), ('GPM2', 9), ('GPM3', 10)):
            c.oblige(f'header {n}', val_eq(getattr(h, n), text(p, j)))
        c.oblige('number', val_eq(e.GRIDNO, q))
        c.oblige('forecast type', isinstance(e.TYPE, Coded) and val_eq(e.TYPE.word, at(p, 2)))
        c.oblige('first time', isinstance(e.DATTIM1, Later) and time(e.DATTIM1.t, 1) and
                 span(e.DATTIM1.d, 2))
        if e.DATTIM2 is None:
            c.oblige('no second time', sor(at(p, 3) == 0, at(p, 4) < 0))
        else:
            c.cover('second time')
            c.oblige('second time', isinstance(e.DATTIM2, Later) and time(e.DATTIM2.t, 3) and
                     span(e.DATTIM2.d, 4))
        c.oblige('name', val_eq(e.PARM, text(p, 8) + text(p, 9) + text(p, 10)))
        c.oblige('level 1', level(e.LEVEL1, 5))
        c.oblige('level 2', level(e.LEVEL2, 6))
        c.oblige('coordinate', val_eq(e.COORD[1], at(p, 7)))
    return body


def vertical(c):
    """The name of a coordinate code, or the text of its word in the file's order."""
    import gempakio.common as C
    b = FileWords(c.choose(['', '>']))
    me = new('GempakGrid')
    me.prefmt = b.order
    it = interp(b)
    back = []

    def pack(i, a, k):
        if len(a) == 2 and is_sym(a[1]):
            f = a[0]
            f = f if isinstance(f, str) else ''.join(map(str, f.parts))
            ctx().oblige('the word comes back as it was', f in (
                ('>i', '!i') if b.order else ('i', '=i', '@i', '<i')))
            back.append(a[1])
            r = b.chars(0, 4)
            return r
        return NotImplemented
    it.models.reg(struct.pack, pack)
    v = b.integer(0)
    c.assume(v >= 0)
    r = it.call(it.getattr(me, '_convert_vertical_coord'), (v,))
    c.cover('text' if isinstance(r, Chars) else 'name')
    if isinstance(r, Chars):
        c.oblige('text of a word past the codes', sand(v > 8, r.stage == 1, val_eq(back[0], v)))
    else:
        names = ('NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL')
        c.oblige('name of its code', sor(*[sand(v == k, r == n) for k, n in enumerate(names)]))


CRS = {
    # projection: (PROJ name, kind); angles: azimuthal and cylindrical lat_0, lon_0,
    # conical lat_1, lon_0, lat_2
    'MER': ('merc', 'cyl'), 'NPS': ('stere', 'azm'), 'SPS': ('stere', 'azm'),
    'LCC': ('lcc', 'con'), 'SCC': ('lcc', 'con'), 'CED': ('eqc', 'cyl'),
    'NOR': ('ortho', 'azm'), 'SOR': ('ortho', 'azm'), 'STR': ('stere', 'azm'),
    'AED': ('aeqd', 'azm'), 'ORT': ('ortho', 'azm'), 'LEA': ('laea', 'azm'),
    'GNO': ('gnom', 'azm'),
}


def crs(c):
    """Supported projections with their angles; every other name is refused."""
    import gempakio.decode.gempak as D
    import pyproj
    me = new('GempakGrid')
    name = SStr.var('projection')
    nav = me.navigation_block = Rec(projection=name)
    a1, a2, a3 = (SReal.var(f'angle {i}') for i in (1, 2, 3))
    nav.proj_angle1, nav.proj_angle2, nav.proj_angle3 = a1, a2, a3
    nav.upper_right_lat, nav.lower_left_lat = SReal.var('top'), SReal.var('bottom')
    M = models()
    made = []
    M.table[(id(type), 'from_dict')] = lambda i, slf, a, k: made.append(a[0]) or (
        'crs', a[0])
    it = interp(FileWords(''), M=M)
    which = c.choose([*CRS, None])
    if which is None:
        for n in (*CRS, 'MCD'):
            c.assume(name != n)
    else:
        c.assume(name == which)
        nav.projection = which
    try:
        it.call(it.getattr(me, '_get_crs'), ())
    except NotImplementedError:
        c.cover('refused')
        c.oblige('only others are refused', which is None)
        return
    c.oblige('an unknown projection is refused', which is not None)
    c.cover('made')
    c.oblige('one coordinate system', len(made) == 1 and me.crs == ('crs', made[0]))
    d = made[0]
    proj, kind = CRS[which]
    c.oblige('projection', d['proj'] == proj)
    c.oblige('sphere', d['R'] == 6371200.0)
    want = {'lat_1': a1, 'lon_0': a2, 'lat_2': a3} if kind == 'con' else {
        'lat_0': a1, 'lon_0': a2}
    for n, v in want.items():
        c.oblige(f'angle {n}', n in d and val_eq(d[n], v))
    c.oblige('nothing else', set(d) <= {'proj', 'ellps', 'R', *want})


# -- data ------------------------------------------------------------------------------

VALUE = z3.Function('unpacked', z3.IntSort(), z3.IntSort(), z3.RealSort())


def strided(M):
    """x[p::n] of a sequence of symbolic length."""
    old = M.getitem

    def getitem(interp, o, k):
        if isinstance(o, SSeq) and isinstance(k, slice) and k.stop is None and \
                k.step is not None:
            c = ctx()
            a, n, N = k.start or 0, k.step, o.length
            c.oblige('a stride from a place in the first turn', sand(a >= 0, n > a))
            m = SInt.var(c.fresh_name('strided'))
            # m = ceil((N - a) / n)
            c.assume(m >= 0)
            if bool(N > a):
                c.assume(sand(a + (m - 1) * n < N, N <= a + m * n))
            else:
                c.assume(m == 0)
            def item(j):
                # a + j * n < N, by the choice of m
                return o.item(a + j * n)
            r = SSeq(m, item, o.pytype)
            r.ghosts = ()
            return r
        if isinstance(o, reading.Named):
            return o[k]
        return old(interp, o, k)
    M.getitem = getitem
    old_in = M.contains

    def contains(interp, d, x):
        if isinstance(d, reading.Named) and isinstance(x, str):
            if x in d.d or x in d.present:
                return True
            if x in d.absent or not d.more:
                return False
            r = ctx().choose([True, False])
            (d.present if r else d.absent).append(x)
            return r
        return old_in(interp, d, x)
    M.contains = contains

    def array(i, a, k):
        if isinstance(a[0], (SSeq, SReal)):
            ctx().oblige('values are kept as 32-bit reals', k.get('dtype') in (
                np.float32, np.float64, float))
            return a[0]
        return NotImplemented
    M.reg(np.array, array)
    M.reg(len, lambda i, a, k, old=M.lookup(len): a[0].length if isinstance(a[0], SSeq)
          else old(i, a, k))


PART_NAMES = ('TTAA', 'PPAA', 'TTBB')


def unpack(kind, parts):
    cls = 'GempakSounding' if kind in ('merged', 'unmerged') else 'GempakSurface'
    keys = KEYS['GempakSounding' if cls == 'GempakSounding' else kind]

    def body(c):
        from gempakio.common import DataTypes as D
        me, b, it, rows, cols = opened(c, cls, keys, parts)
        strided(it.models)
        base = it.contracts[f'{G}GempakFile.__init__']
        base(it, None, (me,), {})
        b.used = ()

        def seq(n, f):
            q = SSeq(n, f)
            q.ghosts = ()
            return q
        me.row_headers = seq(rows, lambda k: Rec(**heads('row', keys[0], k)))
        me.column_headers = seq(cols, lambda k: Rec(**heads('column', keys[1], k)))
        me.parameters = []
        pp = at(LABEL['parts_ptr'])
        kinds = []
        for j, part in enumerate(me.parts):
            kinds.append(c.choose([D.real, D.realpack] + (
                [D.character] if kind != 'merged' else [])))
            part.data_type = kinds[-1]
            if kind == 'unmerged':
                part.name = PART_NAMES[j]
            n = SInt.var(f'parameters of part {j}')
            c.assume(n >= 1)
            if kinds[-1] == D.character:
                c.assume(n == 1)
            me.parameters.append({'name': seq(n, lambda k, j=j: SStr(z3.Function(
                f'name {j}', z3.IntSort(), SStr.S)(zi(k))))})

        def unpack_real(i, f, a, k):
            _self, buf, params, length = a
            ctx().oblige('all packed words', val_eq(buf.length, length))
            j = [p is params for p in me.parameters].index(True)
            n = me.parameters[j]['name'].length
            m = SInt.var(ctx().fresh_name('unpacked'))
            ctx().assume(sand(m >= n))
            base = buf.base
            r = SSeq(m, lambda q: SReal(VALUE(zi(base), zi(q))))
            r.ghosts = ()
            return r
        it.contracts[f'{G}GempakFile._unpack_real'] = unpack_real
        it.contracts[f'{G}GempakSounding._merge_sounding'] = lambda i, f, a, k: (
            'merged', a[-1])
        it.contracts[f'{G}GempakSurface._process_report_text'] = lambda i, f, a, k: [
            ('reports', a[-2], a[-1])]
        n = SInt.var('requested')
        R, Q = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('of row', 'of column'))
        g = SInt.var('ghost request')
        c.assume(sand(g >= 0, g < n))

        def req(k):
            r, q = SInt.of(R(zi(k))), SInt.of(Q(zi(k)))
            ctx().assume(sand(r >= 0, r < rows, q >= 0, q < cols))
            if kind == 'ship':
                ctx().assume(r == 0)
            # its blocks hold what their parts need
            for j, part in enumerate(me.parts):
                p = pointer(r, q, cols, parts, j)
                ctx().assume(simplies(p != 0, sand(
                    p >= 1, at(p) - part.header_length >= (
                        1 if kinds[j] != D.real else me.parameters[j]['name'].length),
                    part.header_length >= 0)))
            return r, q
        def reset():
            b.pos = None
            for x in ('data_ptr', 'data_header_length'):
                vars(me).pop(x, None)
        it.scratch = ([me], reset)
        out = it.call(it.getattr(me, f'_unpack_{kind}'), (seq(n, req),))
        got = entry(out, g)
        c.oblige('one result for each request', len(got) == 1)
        (x,) = got
        if isinstance(x, dict) and '**' in x:
            d = reading.Named({k: v for k, v in x.items() if k != '**'})
            d.update(x['**'])
            x = d
        r, q = req(g)
        rh, ch = heads('row', keys[0], r), heads('column', keys[1], q)
        wanted = dict(rh if kind == 'climate' else ch)
        wanted.update({n: (ch if kind in ('ship', 'climate') else rh)[n]
                       for n in ('DATE', 'TIME')})
        values = None
        if kind == 'unmerged':
            c.oblige('parts are merged', x[0] == 'merged')
            x = x[1]
        if isinstance(x, tuple):
            c.cover('reports')
            values, x = x[2], x[1]
        given = x.d if isinstance(x, reading.Named) else x
        for n in (*STATION, 'DATE', 'TIME', *(() if cls == 'GempakSounding' else
                                               ('STD2', 'SPRI'))):
            c.oblige(f'{n}', n in given and val_eq(given[n], wanted[n]))
        # the values of each part
        seqs = []
        if kind == 'unmerged':
            for j in range(parts):
                v = given.get(PART_NAMES[j])
                seqs.append([] if v is None else list(v.more))
                if v is not None:
                    c.oblige('one set of values for each part', len(v.more) == 1 and not v.d)
        else:
            src = x if values is None else values
            more = list(src.more) if isinstance(src, reading.Named) else []
            for j in range(parts):
                p = pointer(r, q, cols, parts, j)
                if bool(p != 0):
                    c.oblige('values of a part with data', len(more) > 0)
                    seqs.append([more.pop(0)])
                else:
                    seqs.append([])
            c.oblige('no other values', not more)
        for j, part in enumerate(me.parts):
            p = pointer(r, q, cols, parts, j)
            if not bool(p != 0):
                c.oblige('no values without data', not seqs[j])
                continue
            c.oblige('values of a part with data', len(seqs[j]) == 1)
            (vs,) = seqs[j]
            names = me.parameters[j]['name']
            c.oblige('a value for each parameter', val_eq(vs.length, names.length))
            a = SInt.var(f'ghost parameter {j}')
            c.assume(sand(a >= 0, a < names.length))
            nm, v = vs.item(a)
            c.oblige('under its name', val_eq(nm, names.item(a)))
            if kind == 'standard':
                if values is None:
                    for n in x.absent:
                        c.assume(nm != n)
                    c.oblige('text is split into reports', sand(nm != 'TEXT', nm != 'SPCL'))
            first = p + part.header_length + 1
            c.cover(kinds[j].name)
            if kinds[j] == D.character:
                c.oblige('text', val_eq(v, SStr(TEXT(zi(byte(first)), zi(
                    4 * (at(p) - part.header_length))))))
                continue

            def want(i):
                return SReal(REAL(zi(byte(first, i)))) if kinds[j] == D.real else SReal(
                    VALUE(zi(byte(first)), zi(i)))
            if cls == 'GempakSurface':
                c.oblige('value', val_eq(v, want(a)))
                continue
            lv = SInt.var(f'ghost level {j}')
            c.assume(sand(lv >= 0, lv < v.length))
            np_ = names.length
            c.oblige('value', val_eq(v.item(lv), want(lv * np_ + a)))
            if kinds[j] == D.real:
                K = SInt.var(f'levels {j}')
                c.assume(sand(K >= 1, at(p) - part.header_length == K * np_))
                m = v.length
                # products of numbers of one sign are not negative
                c.assume(simplies(m <= K - 1, (K - 1 - m) * np_ >= 0))
                c.assume(simplies(m >= K + 1, (m - 1 - K) * np_ >= 0))
                c.oblige('as many levels as the block holds', val_eq(v.length, K))
    return body


def run(name, body, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


BODIES = {f'GempakFile {i}': base_init(x) for i, x in enumerate(LAYOUTS)}
for _k in KEYS:
    if _k != 'GempakGrid':
        BODIES[f'{_k} inventory'] = inventory(_k)
for _k in ('standard', 'ship', 'climate'):
    BODIES[f'{_k} inventory of 2 parts'] = inventory(_k, 2)
BODIES['grid inventory'] = grid_inventory(True)
BODIES['grid inventory without navigation'] = grid_inventory(False)
BODIES['vertical coordinates'] = vertical
BODIES['coordinate systems'] = crs
for _k in ('merged', 'unmerged', 'standard', 'ship', 'climate'):
    for _n in (1, 2):
        BODIES[f'{_k} data of {_n} part{"s" * (_n > 1)}'] = unpack(_k, _n)


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
