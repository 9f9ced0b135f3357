"""C05: where the sections and blocks of a written file lie.

DataManagementFile._dmword, gempakio.common._word_to_position/_position_to_word,
GempakStream: words and byte positions convert into each other without loss.
_set_pointers: for any number of rows, columns and parameters the sections are in order,
    each large enough for what the writers put there.
_write_*: write inside their section only, for any number of headers, parameters, entries;
_write_data: the pointer of an arbitrary entry is its block's first word, past the first
    free word; the block lies before the next free word; no word of it, nor its pointer, is
    written again.
to_gempak: each writer starts at its pointer; the data management record is written last.
"""
import numpy as np
import z3

from contracts.real_decode import zi
from contracts.words import Entries, Words, emit_loop, field
from pyvc import filt, texts
from pyvc.core import (Ctx, SInt, SReal, Sym, Unsupported, ctx, is_sym, mknot, sand, simplies,
                       sor, val_eq)
from pyvc.interp import Interp
from pyvc.models import Models, SDT, SSeq, SStr, Star

I, RR, SS = z3.IntSort(), z3.RealSort(), SStr.S
E = 'gempakio.encode.gempak.'


def seq(n, item):
    s = SSeq(n, item)
    s.ghosts = ()
    return s


def fn(name, *sorts):
    return z3.Function(name, *sorts)


class Levels(Sym):
    """The stored data of a sounding (series per parameter) or report (a value each)."""

    pytype = dict

    def __init__(self, n, levels, value):
        self.n, self.levels, self.value = n, levels, value

    def one(self, p):
        if self.levels is None:
            return SReal(self.value(zi(p)))
        return seq(self.levels, lambda k: SReal(self.value(zi(p), zi(k))))

    def __getitem__(self, key):
        if isinstance(key, Key):
            return self.one(key.p)
        raise Unsupported('data by another key')

    def keys(self):
        return seq(self.n, Key)

    def values(self):
        return seq(self.n, self.one)

    def items(self):
        return seq(self.n, lambda p: (Key(p), self.one(p)))


class Key(Sym):
    pytype = str

    def __init__(self, p):
        self.p = p


class Store(Sym):
    """self.data: whether an entry has data, and its data, by row and column."""

    def __init__(self, has, get):
        self.has, self.get = has, get

    def __getitem__(self, k):
        return self.get(k)


class Head:
    """A header record: a tuple of its fields, knowing its place among its like."""


def registered():
    M = filt.register(texts.register(Models()))
    old, oldc, oldz = M.m_len, M.contains, M.m_zip
    oldit = M.symbolic_iter

    def m_len(i, a, k):
        if isinstance(a[0], Levels):
            return a[0].n
        return old(i, a, k)

    def contains(interp, cont, x):
        if isinstance(cont, Store):
            return cont.has(x)
        return oldc(interp, cont, x)

    def m_zip(i, a, k):
        if len(a) == 1 and isinstance(a[0], Star):
            s = a[0].seq
            first = s.item(SInt.var('one'))
            return seq(first.length, lambda n: seq(s.length, lambda p: s.item(p).item(n)))
        return oldz(i, a, k)

    def symbolic_iter(interp, v):
        if isinstance(v, Levels):
            return v.keys()
        return oldit(interp, v)

    def m_iter(i, a, k):
        return a[0] if isinstance(a[0], (Levels, SSeq)) else NotImplemented

    def m_next(i, a, k):
        if isinstance(a[0], Levels):
            return Key(0)
        if isinstance(a[0], SSeq):
            return a[0].item(0)
        return NotImplemented
    M.contains, M.symbolic_iter = contains, symbolic_iter
    M.reg(len, m_len)
    M.reg(zip, m_zip)
    M.reg(iter, m_iter)
    M.reg(next, m_next)
    return M


def interp(loops=(), contracts=None):
    it = Interp(registered(), contracts=contracts)
    it.auto_loops = [*loops, emit_loop]
    return it


CLASSES = ('GridFile', 'SoundingFile', 'SurfaceFile')


class Setup:
    pass


def heads(c, cls, names, n, tag):
    """n header records of any content."""
    from gempakio.common import HEADER_DTYPE as T
    make = {}

    def field_of(key, k):
        if key in ('DATE', 'TIME'):
            return day(k)[key == 'TIME']
        if key in ('GDT1', 'GDT2', 'GTM1', 'GTM2'):
            return gridtime(key, k)
        t = T[key]
        f = fn(f'{tag} {key}', I, SS if 's' in t else RR if key in ('SLAT', 'SLON') else I)
        v = f(zi(k))
        return SStr(v) if 's' in t else SReal(v) if key in ('SLAT', 'SLON') else SInt.of(v)

    def day(k):
        p = {x: SInt.of(fn(f'{tag} {x}', I, I)(zi(k))) for x in
             ('year', 'month', 'day', 'hour', 'minute')}
        bound(p)
        import datetime
        return (SDT(datetime.date, year=p['year'], month=p['month'], day=p['day']),
                SDT(datetime.time, hour=p['hour'], minute=p['minute'], second=0))

    def bound(p):
        ctx().assume(sand(p['year'] >= 1969, p['year'] <= 2068, p['month'] >= 1,
                          p['month'] <= 12, p['day'] >= 1, p['day'] <= 31, p['hour'] >= 0,
                          p['hour'] <= 23, p['minute'] >= 0, p['minute'] <= 59))

    def gridtime(key, k):
        import datetime
        typ = SInt.of(fn(f'{tag} type {key[-1]}', I, I)(zi(k)))
        ctx().assume(sand(typ >= 0, typ <= 3))
        if key.startswith('GDT'):
            if key == 'GDT2' and not bool(
                    SInt.of(fn(f'{tag} second', I, I)(zi(k))) == 1):
                return 0
            p = {x: SInt.of(fn(f'{tag} {key} {x}', I, I)(zi(k))) for x in
                 ('year', 'month', 'day', 'hour', 'minute')}
            bound(p)
            return (typ, SDT(datetime.datetime, **p))
        h, m = (SInt.of(fn(f'{tag} {key} {x}', I, I)(zi(k))) for x in ('hours', 'minutes'))
        ctx().assume(sand(h >= 0, m >= 0, m <= 59,
                          h <= 999, simplies(typ == 0, h <= 23)))
        return (typ, h, m)

    def item(k):
        # one record per place (places are compared by their term)
        key = filt.ikey(k)
        if key not in make:
            r = cls(*(field_of(x, k) for x in names))
            make[key] = r
            PLACE[id(r)] = (r, k)
        return make[key]
    return seq(n, item)


PLACE = {}


def place(x):
    """The place of a header record among its like."""
    if id(x) in PLACE and PLACE[id(x)][0] is x:
        return PLACE[id(x)][1]
    return 0


def setup(c, name):
    """A file of any number of rows, columns and parameters, its pointers arbitrary."""
    import pyproj
    import gempakio.encode.gempak as G
    PLACE.clear()
    h = Setup()
    h.name = name
    cls = getattr(G, name)
    if name == 'GridFile':
        lon, lat = np.meshgrid([-100., -99., -98.], [40., 41.])
        me = cls(lon, lat, pyproj.Proj(proj='lcc', lat_1=30, lat_2=50, lon_0=-99))
    else:
        me = cls(['PRES', 'TEMP'])
    h.me, h.cls = me, cls
    h.rows = SInt.var('rows') if name != 'GridFile' else 1
    h.cols = SInt.var('columns')
    c.assume(sand(h.rows >= 0, h.cols >= 0))
    me.rows, me.columns = h.rows, h.cols
    h.np = len(me.parameter_names)
    if name != 'GridFile':
        h.np = SInt.var('parameters')
        c.assume(h.np >= 1)
        names = seq(h.np, lambda p: SStr(fn('parameter', I, SS)(zi(p))))
        me.parameter_names = names
        zero = seq(h.np, lambda p: 0)
        part, = me._parts_dict.values()
        part.update(parameters=names, scale=zero, offset=zero, bits=zero)
        me.row_headers = heads(c, me.make_row_header, me.row_names, h.rows, 'row')
    me.column_headers = heads(c, me.make_column_header, me.column_names, h.cols, 'col')
    h.K, h.R = len(me.column_names), len(me.row_names)
    h.nfh = sum(i['length'] + 4 for i in me._file_headers.values())
    return h


PTRS = ('_row_keys_ptr', 'column_keys_ptr', 'file_keys_ptr', 'row_headers_ptr',
        'column_headers_ptr', 'parts_ptr', 'data_block_ptr', 'next_free_word')


def sizes(h):
    """Words of each section from the row keys on, in order."""
    return (h.R, h.K, h.nfh, h.rows * (h.R + 1), h.cols * (h.K + 1), 4 + 4 * h.np,
            h.rows * h.cols)


def pointers(h, c):
    """The postcondition of _set_pointers, for the writers."""
    me = h.me
    me.row_keys, me.column_keys = h.R, h.K
    for p in PTRS:
        setattr(me, p, SInt.var(p))
    me._data_mgmt_ptr = 129
    c.assume(layout(me, sizes(h)))


def layout(me, sz):
    from gempakio.common import MBLKSZ
    v = [getattr(me, p) for p in PTRS]
    return sand(v[0] >= me._data_mgmt_ptr + me._data_mgmt_length,
                *(a + n <= b for a, n, b in zip(v, sz, v[1:])),
                (v[-1] - 1) % MBLKSZ == 0, v[-1] - (v[-2] + sz[-1]) < MBLKSZ)


def set_pointers(name):
    def body(c):
        h = setup(c, name)
        me = h.me
        it = interp()
        it.call(it.getattr(me, '_set_pointers'))
        c.cover('pointers')
        c.oblige('label before the data management record',
                 me._label_struct.size % 4 == 0 and
                 1 + me._label_struct.size // 4 <= me._data_mgmt_ptr)
        c.oblige('data management record large enough',
                 me._data_mgmt_struct.size // 4 <= me._data_mgmt_length)
        c.oblige('row and column keys', me.row_keys == h.R and me.column_keys == h.K)
        sz = sizes(h)
        v = [getattr(me, p) for p in PTRS]
        c.oblige('row keys past the data management record',
                 v[0] >= me._data_mgmt_ptr + me._data_mgmt_length)
        for p, q, a, n, b in zip(PTRS, PTRS[1:], v, sz, v[1:]):
            c.oblige(f'{p} large enough before {q}', a + n <= b)
        c.oblige('as the writers assume', layout(me, sz))
    return body


def dmword(c):
    import gempakio.common as C
    from gempakio.common import MBLKSZ
    from gempakio.encode.gempak import DataManagementFile as D
    it = interp()
    w = SInt.var('word')
    c.assume(w >= 1)
    rec, start = it.call(D._dmword, (w,))
    c.oblige('record and start', sand((rec - 1) * MBLKSZ + start == w, start >= 1,
                                      start <= MBLKSZ, rec >= 1))
    p = it.call(C._word_to_position, (w,))
    c.oblige('position', p == 4 * (w - 1))
    c.oblige('back', it.call(C._position_to_word, (p,)) == w)
    b = SInt.var('byte')
    c.assume(b >= 0)
    v = it.call(C._position_to_word, (b,))
    q = it.call(C._word_to_position, (v,))
    c.oblige('word of a byte', sand(q <= b, b < q + 4))


class Bytes0(Sym):
    """BytesIO seen through seek, tell and write."""

    def __init__(self):
        self.at, self.log = SInt.var('at'), []

    def seek(self, p):
        self.at = p
        return p

    def tell(self):
        return self.at

    def write(self, b):
        self.log.append((self.at, b))
        self.at = self.at + 4


def stream(c):
    import gempakio.encode.gempak as G
    S = G.GempakStream
    M = registered()
    packed = []
    import struct

    def pack(i, a, k):
        packed.append(a)
        return ('packed', len(packed) - 1)
    M.reg(struct.pack, pack)
    M.reg(bytes, lambda i, a, k: ('bytes', *a))
    it = Interp(M)
    f = Bytes0()
    w = SInt.var('word')
    c.assume(w >= 1)
    it.call(S.jump_to, (f, w))
    c.oblige('jumps to the word', f.at == 4 * (w - 1))
    c.oblige('the word it is at', it.call(S.word, (f,)) == w)
    what = c.choose(['int', 'float', 'string', 'struct'])
    if what == 'struct':
        class One:
            def pack(self, **kw):
                return ('whole', kw)
        it.call(S.write_struct, (f, One()), {'a': w})
        c.oblige('the structure packed', f.log == [(4 * (w - 1), ('whole', {'a': w}))]
                 or len(f.log) == 1 and f.log[0][1] == ('whole', {'a': w}))
        return
    v = {'int': SInt.var('v'), 'float': SReal.var('v'), 'string': SStr.var('v')}[what]
    it.call(it.getattr(S, 'write_' + what), (f, v))
    ok = len(f.log) == 1 and len(packed) == 1 and f.log[0][1] == ('packed', 0)
    c.oblige('one word written', ok)
    fmt, val = packed[0]
    if what == 'string':
        # four characters, filled up with blanks
        from pyvc.models import PadStr, SFmt
        ok = fmt == '<4s' and isinstance(val, tuple) and val[0] == 'bytes'
        x = val[1]
        while isinstance(x, SFmt) and len(x.parts) == 1:
            x = x.parts[0]
        ok = ok and isinstance(x, PadStr) and x.width == 4 and x.s is v
        c.oblige('as four bytes', ok)
    else:
        c.oblige('as the value, little endian', fmt == {'int': '<i', 'float': '<f'}[what]
                 and val is v)


def section(w, lo, hi):
    w.pos = lo
    w.frame = lambda a, b: sand(a >= lo, b <= hi)


def of(h, attr, k):
    return getattr(h.me, attr) if not callable(attr) else attr(h.me)


def writers(name, which):
    """One writer: nothing outside its section, and all of it."""
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        it = interp()
        at = dict(zip(('rowkeys', 'colkeys', 'filekeys', 'rows', 'cols', 'parts'),
                      zip(PTRS, sizes(h))))
        w = Words(0)
        if which == 'label':
            section(w, 1, me._data_mgmt_ptr)
            it.call(it.getattr(me, '_write_label'), (w,))
            c.oblige('label written at word one', w.pos <= 129)
            return
        if which == 'management':
            section(w, me._data_mgmt_ptr, me._row_keys_ptr)
            it.call(it.getattr(me, '_write_data_management'), (w,))
            return
        p, n = at[which]
        lo = getattr(me, p)
        section(w, lo, lo + n)
        for m in {'rowkeys': ['_write_row_keys'], 'colkeys': ['_write_column_keys'],
                  'filekeys': ['_write_file_keys', '_write_file_headers'],
                  'rows': ['_write_row_headers'], 'cols': ['_write_column_headers'],
                  'parts': ['_write_parts']}[which]:
            it.call(it.getattr(me, m), (w,))
        c.cover(which)
        c.oblige('the section is filled', w.pos == lo + n)
    return body


def data(name, part=None):
    """_write_data for an arbitrary entry."""
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        nf0, dbp = me.next_free_word, me.data_block_ptr
        w = Words(dbp)
        gr = SInt.var('ghost row') if name != 'GridFile' else 0
        gc = SInt.var('ghost column')
        c.assume(sand(gr >= 0, gr < h.rows, gc >= 0, gc < h.cols))
        has_f = fn('has data', I, I, z3.BoolSort())
        nlev = SInt.var('levels')
        c.assume(nlev >= 0)
        levels = fn('levels of', I, I, I)
        watch = c.choose(['pointer', 'length', 'time', 'value', 'nothing']) \
            if part is None else part
        from pyvc.core import mkbool

        def where(k):
            row, col = (k if name != 'GridFile' else (None, k))
            return place(row) if row is not None else 0, place(col)

        def has(k):
            r, q = where(k)
            return mkbool(has_f(zi(r), zi(q)))

        def get(k):
            r, q = where(k)
            if name == 'GridFile':
                return ('grid', q)
            v = fn('value', I, I, I, I, RR)
            if name == 'SurfaceFile':
                return Levels(h.np, None, lambda p: v(zi(r), zi(q), p, z3.IntVal(0)))
            n = SInt.of(levels(zi(r), zi(q)))
            ctx().assume(n >= 0)
            return Levels(h.np, n, lambda p, k: v(zi(r), zi(q), p, k))
        me.data = Store(has, get)

        def address(ix):
            return dbp + ix.get('rows', 0) * h.cols + ix['columns']
        dims = {'columns': (h.cols, gc)}
        if name != 'GridFile':
            dims['rows'] = (h.rows, gr)
        # products of indices (each step proved, then used)
        c.oblige('lemma: the ghost entry is in the table',
                 gr * h.cols + gc < h.rows * h.cols)
        hasg = mkbool(has_f(zi(gr), zi(gc)))
        pointer = dbp + gr * h.cols + gc
        e = Setup()
        e.p, e.q = SInt.var('ghost parameter'), SInt.var('ghost level')
        word = SInt.of(fn('grid word', I, I, I)(zi(gc), zi(e.q)))
        gl = SInt.of(fn('grid words', I, I)(zi(gc)))

        def arm(nf):
            w.got, w.watch, w.hints = [], None, [e.q, e.p]
            if watch == 'pointer':
                w.watch = pointer
                return
            if not bool(hasg):
                return
            if watch == 'length':
                w.watch = nf
            elif watch == 'time':
                w.watch = nf + 1
            elif watch == 'value':
                if name == 'GridFile':
                    w.watch = nf + 9 + e.q
                    ctx().assume(sand(e.q >= 0, e.q < gl))
                elif name == 'SurfaceFile':
                    w.watch = nf + 2 + e.p
                    ctx().assume(sand(e.p >= 0, e.p < h.np))
                else:
                    w.watch = nf + 2 + e.q * h.np + e.p
                    ctx().assume(sand(e.p >= 0, e.p < h.np, e.q >= 0,
                                      e.q < SInt.of(levels(zi(gr), zi(gc)))))

        def check(nf):
            c = ctx()
            end = me.next_free_word
            if watch == 'pointer':
                want = nf if bool(hasg) else 0
                c.oblige('the pointer of the entry is its first word, or none',
                         len(w.got) == 1 and w.got[0][0] == 'i' and val_eq(w.value(), want))
                if not bool(hasg):
                    c.oblige('no block without data', end == nf)
                return
            if not bool(hasg):
                return
            got = w.got[0] if len(w.got) == 1 else None
            n = block_len(nf)
            c.oblige('the block is as long as its first word says', end == nf + 1 + n)
            if watch == 'nothing':
                return
            c.oblige(f'{watch} written once', got is not None)
            if watch == 'length':
                c.oblige('length', sand(got[0] == 'i', val_eq(got[1], n)))
            elif watch == 'time':
                row = me.row_headers.item(gr) if name != 'GridFile' else None
                c.oblige('time', val_eq(got[1], row.TIME.hour * 100 + row.TIME.minute
                                        if row is not None else 3))
            else:
                if name == 'GridFile':
                    c.oblige('value', sand(got[0] == 'i', val_eq(got[1], word)))
                else:
                    v = fn('value', I, I, I, I, RR)(
                        zi(gr), zi(gc), zi(e.p),
                        zi(e.q) if name == 'SoundingFile' else z3.IntVal(0))
                    c.oblige('value', sand(got[0] == 'f', val_eq(got[1], SReal(v))))

        def block_len(nf):
            if name == 'GridFile':
                return gl + 8
            if name == 'SurfaceFile':
                return 1 + h.np
            return 1 + SInt.of(levels(zi(gr), zi(gc))) * h.np
        ent = Entries(me, w, nf0, dims, (dbp, dbp + h.rows * h.cols), pointer, hasg, arm,
                      check)
        ent.address = address
        w.frame = ent.frame
        contracts = {}
        if name == 'GridFile':
            def pack(interp, f, args, kw):
                grid = args[1]
                n = SInt.of(fn('grid words', I, I)(zi(grid[1])))
                ctx().assume(n >= 0)
                return (SReal.var('ref'), SReal.var('scale'), seq(n, lambda i: SInt.of(
                    fn('grid word', I, I, I)(zi(grid[1]), zi(i)))))
            contracts[f'{E}GridFile._pack_grib'] = pack
        it = interp([ent.loop], contracts)
        ent.lemmas = [(h.rows, h.cols)]
        it.call(it.getattr(me, '_write_data'), (w,))
        c.cover('written')
        c.oblige('the next free word is past the first', me.next_free_word >= nf0)
    return body


class File0:
    def __init__(self, log):
        self.log = log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append(('close', None))
        return False

    def write(self, b):
        self.log.append(('out', b))


class Stream0(Words):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def getbuffer(self):
        return ('buffer', self)

    getvalue = getbuffer


def to_gempak(name):
    def body(c):
        import gempakio.encode.gempak as G
        h = setup(c, name)
        me = h.me
        log = []
        w = Stream0(1)
        M = registered()
        opened = []

        def m_open(i, a, k):
            opened.append((a, k))
            return File0(log)
        M.reg(open, m_open)
        ends = []

        def writer(n):
            def f(interp, fun, args, kw):
                log.append((n, args[-1].pos, args[0] is me and args[-1] is w))
                if n == '_write_data':
                    ends.append(SInt.var('free after'))
                    me.next_free_word = ends[0]
                if n == '_write_file_keys':
                    w.pos = w.pos + 3 * len(me._file_headers)
                elif n == '_write_data_management':
                    ends.append(me.next_free_word)
                    w.pos = SInt.var(c.fresh_name('after'))
                else:
                    w.pos = SInt.var(c.fresh_name('after'))
            return f
        con = {}
        for n in ('_write_label', '_write_row_keys', '_write_column_keys', '_write_file_keys',
                  '_write_file_headers', '_write_parts', '_write_row_headers',
                  '_write_column_headers', '_write_data', '_write_data_management'):
            for k in h.cls.__mro__:
                if n in vars(k):
                    con[f'{E}{k.__name__}.{n}'] = writer(n)

        def set_ptrs(interp, fun, args, kw):
            log.append(('set', None, True))
            pointers(h, c)
        con[f'{E}DataManagementFile._set_pointers'] = set_ptrs
        it = Interp(M, contracts=con)
        M.reg(G.GempakStream, lambda i, a, k: w)
        it.call(it.getattr(me, 'to_gempak'), (SStr.var('path'),))
        names = [x[0] for x in log]
        c.cover('written')
        want = {'_write_label': 1, '_write_row_keys': me._row_keys_ptr,
                '_write_column_keys': me.column_keys_ptr, '_write_parts': me.parts_ptr,
                '_write_row_headers': me.row_headers_ptr,
                '_write_column_headers': me.column_headers_ptr,
                '_write_data': me.data_block_ptr, '_write_data_management': me._data_mgmt_ptr}
        if me._file_headers:
            want['_write_file_keys'] = me.file_keys_ptr
            want['_write_file_headers'] = me.file_keys_ptr + 3 * len(me._file_headers)
        c.oblige('every section is written once', sorted(
            n for n in names if n.startswith('_write')) == sorted(want))
        for n, *x in log:
            if n in want:
                c.oblige(f'{n} starts at its pointer', sand(x[1], val_eq(x[0], want[n])))
        c.oblige('pointers are set first', names[0] == 'set' and names.count('set') == 1)
        c.oblige('the record holds the next free word after the data', ends[0] is ends[1])
        outs = [i for i, n in enumerate(names) if n == 'out']
        c.oblige('the words go to the file when all are written', len(outs) == 1 and
                 outs[0] > max(i for i, n in enumerate(names) if n in want) and
                 log[outs[0]][1] == ('buffer', w))
        c.oblige('file opened for writing', len(opened) == 1 and
                 (opened[0][0][1:] == ('wb',) or opened[0][1].get('mode') == 'wb'))
    return body


def label(name):
    """The label names the pointers and sizes the sections have."""
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        it = interp()
        w = Words(1, SInt.var('label word'))
        c.assume(sand(w.watch >= 1, w.watch <= 128))
        it.call(it.getattr(me, '_write_label'), (w,))
        if not w.got:
            return
        st, kw, off = w.got[0]
        c.cover('label')
        want = dict(
            file_headers=len(me._file_headers), file_keys_ptr=me.file_keys_ptr, rows=h.rows,
            row_keys=h.R, row_keys_ptr=me._row_keys_ptr, row_headers_ptr=me.row_headers_ptr,
            columns=h.cols, column_keys=h.K, column_keys_ptr=me.column_keys_ptr,
            column_headers_ptr=me.column_headers_ptr, parts=1, parts_ptr=me.parts_ptr,
            data_mgmt_ptr=129, data_mgmt_length=me._data_mgmt_length,
            data_block_ptr=me.data_block_ptr, version=1, machine_type=11, missing_int=-9999,
            missing_float=-9999.0, file_type={'GridFile': 3, 'SoundingFile': 2,
                                              'SurfaceFile': 1}[name])
        for k, v in want.items():
            c.oblige(f'label {k}', val_eq(kw[k], v))
        c.oblige('signature', kw['dm_head'] == b'GEMPAK DATA MANAGEMENT FILE ')
    return body


BODIES = {'words and positions': dmword, 'GempakStream': stream}
for _n in CLASSES:
    BODIES[f'{_n} _set_pointers'] = set_pointers(_n)
    BODIES[f'{_n} to_gempak'] = to_gempak(_n)
    BODIES[f'{_n} label fields'] = label(_n)
    for _w in ('label', 'management', 'rowkeys', 'colkeys', 'rows', 'cols', 'parts',
               *(('filekeys',) if _n == 'GridFile' else ())):
        BODIES[f'{_n} writes {_w}'] = writers(_n, _w)
    BODIES[f'{_n} data'] = data(_n)


def run(name, body, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
