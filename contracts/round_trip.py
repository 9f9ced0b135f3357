"""What is written is what is read (C07, C08, C09): lemmas over the contracts of both sides.

The writers' contracts (written, file_layout) say which value each word of a file holds; the
readers' (read_file) which words each thing read is.  Here the words of an arbitrary header,
pointer and block of a file are assumed to hold what the writers' contracts say, and what the
readers' contracts make of them is proved to be what was given.  The names and structures both
sides use are taken from the code, the dates and times are decoded by the code.
"""
import datetime

import z3

from contracts import read_file
from contracts.file_layout import CLASSES, pointers, setup
from contracts.read_file import KEYS, LABEL, at, byte, heads, pointer, real, text
from contracts.reading import INT, REAL, TEXT
from contracts.real_decode import zi
from contracts.words import field
from pyvc.core import Ctx, SInt, SReal, is_sym, sand, sor, val_eq
from pyvc.models import STD, SStr, days_in_month

SIDES = {'GridFile': 'GempakGrid', 'SoundingFile': 'GempakSounding', 'SurfaceFile': 'standard'}
READ = 'gempakio.decode.gempak.GempakFile.'


def names(name):
    """The keys written are those of the layout read."""
    def body(c):
        me = setup(c, name).me
        rows, cols = KEYS[SIDES[name]]
        c.oblige('row keys', list(me.row_names) == list(rows))
        # the reader finds column keys by name
        c.oblige('column keys', sorted(me.column_names) == sorted(cols) and
                 len(set(me.column_names)) == len(me.column_names))
        from gempakio.common import HEADER_DTYPE as T
        for dim, ks in (('row', me.row_names), ('column', me.column_names)):
            for n, v in heads(dim, ks, 0).items():
                if n == 'GRID':
                    continue
                c.oblige(f'{n} is text on both sides or neither',
                         ('s' in T[n]) == isinstance(v, SStr))
        # layouts are told apart by their keys
        for other, ks in KEYS.items():
            if other != SIDES[name]:
                c.oblige(f'not the layout {other}', ks != KEYS[SIDES[name]])
        (pn, info), = me._parts_dict.items()
        c.oblige('one part', info['header'] == (2 if name == 'GridFile' else 1))
    return body


def label(name):
    """The fields of the label are where the reader takes them from."""
    def body(c):
        st = setup(c, name).me._label_struct
        c.oblige('signature first', all(field(st, k) == ('dm_head', 's') for k in range(7)))
        for n, w in LABEL.items():
            c.oblige(f'{n} at word {w}', field(st, w - 1) == (
                n, 'f' if n == 'missing_float' else 'i'))
    return body




def header(name):
    """The fields of an arbitrary header."""
    def body(c):
        h = setup(c, name)
        me = h.me
        dim = c.choose(['row', 'column'] if name != 'GridFile' else ['column'])
        ks = list(me.row_names if dim == 'row' else me.column_names)
        seq = me.row_headers if dim == 'row' else me.column_headers
        g = SInt.var('ghost header')
        c.assume(sand(g >= 0, g < (h.rows if dim == 'row' else h.cols)))
        head = seq.item(g)
        p = at(LABEL[f'{dim}_headers_ptr']) + g * (len(ks) + 1)
        # as written: word 0 the use flag, word 1 + j field j
        key = c.choose(ks)
        j = ks.index(key)
        v = getattr(head, key)
        d = v if key == 'DATE' else v[1] if key in ('GDT1', 'GDT2') and v != 0 else None
        if d is not None:       # a day there is
            c.assume(d.day <= days_in_month(d.year, d.month))
        wd = at(p, 1 + j)
        c.cover(key)
        from gempakio.common import HEADER_DTYPE as T
        got = heads(dim, ks, g)[key]
        it = read_file.interp(None or _Nothing())
        from gempakio.decode.gempak import GempakFile as F
        if 's' in T[key]:
            c.assume(val_eq(text(p, 1 + j), v))
            c.oblige('text read is the text given', val_eq(got, v))
        elif key in ('SLAT', 'SLON'):
            c.assume(sand(2 * wd - 200 * v <= 1, 200 * v - 2 * wd <= 1))
            c.oblige('coordinate to the nearest hundredth', sand(
                got - v <= 0.005, v - got <= 0.005))
        elif key == 'DATE':
            c.assume(wd == v.year % 100 * 10000 + v.month * 100 + v.day)
            c.oblige('date read by _make_date', got.kind == '_make_date')
            c.oblige('date', it.call(F._make_date, (got.word,)) == v)
        elif key == 'TIME':
            c.assume(wd == v.hour * 100 + v.minute)
            c.oblige('time read by _make_time', got.kind == '_make_time')
            c.oblige('time', it.call(F._make_time, (got.word,)) == v)
        elif key in ('GDT1', 'GDT2'):
            if v == 0:
                c.assume(wd == 0)
                c.oblige('no second time', it.call(F._convert_dattim, (got,)) is None)
                return
            typ = v[0]
            short = d.year % 100 * 10000 + d.month * 100 + d.day
            long = d.month * 10**8 + d.day * 10**6 + d.year % 100 * 10**4 + \
                d.hour * 100 + d.minute
            an = bool(typ == 0)
            c.assume(wd == (short if an else long))
            r = it.call(F._convert_dattim, (got,))
            c.oblige('day', sand(r.year == d.year, r.month == d.month, r.day == d.day))
            c.oblige('hour and minute', sand(r.hour == (0 if an else d.hour),
                                             r.minute == (0 if an else d.minute)))
        elif key in ('GTM1', 'GTM2'):
            typ, hr, mn = v
            c.assume(wd == (hr * 100 + mn if bool(typ == 0) else
                            typ * 100000 + hr * 100 + mn))
            t, d = it.call(F._convert_ftime, (got,))
            kinds = ['analysis', 'forecast', 'guess', 'initial']
            c.oblige('type', sor(*[sand(typ == i, t == x) for i, x in enumerate(kinds)]))
            c.oblige('offset', d == STD(hr * 60 + mn))
        else:
            c.assume(val_eq(wd, v))
            c.oblige('number', val_eq(got, v))
    return body


class _Nothing:
    """No buffer: nothing is read here."""
    order = ''


def entry(name):
    """Pointer and block of an arbitrary entry (parameter a, level k)."""
    def body(c):
        cols, r, q = SInt.var('columns'), SInt.var('row'), SInt.var('column')
        rows, np_, lev = SInt.var('rows'), SInt.var('parameters'), SInt.var('levels')
        c.assume(sand(rows >= 1, r >= 0, r < rows, q >= 0, q < cols, np_ >= 1, lev >= 0))
        if name == 'GridFile':
            c.assume(sand(rows == 1, r == 0))
        dbp = at(LABEL['data_block_ptr'])
        # written: word dbp + r * columns + q holds the block's first word, or none
        mine = dbp + r * cols + q
        has = c.choose([True, False])
        nf0, nf = SInt.var('first free word'), SInt.var('free word')
        c.assume(sand(dbp >= 1, nf0 >= dbp, nf >= nf0))
        c.assume(at(mine) == (nf if has else 0))
        p = pointer(r, q, cols, 1, 0)
        c.oblige('the pointer read is the pointer written', val_eq(p, nf if has else 0))
        c.oblige('listed exactly when it was added', bool(p != 0) == has)
        if not has:
            return
        c.cover('entry')
        from gempakio.encode import gempak as G
        hl = 2 if name == 'GridFile' else 1     # as the parts section says
        a, k = SInt.var('parameter'), SInt.var('level')
        c.assume(sand(a >= 0, a < np_, k >= 0, k < lev))
        first = p + hl + 1
        if name == 'GridFile':
            # the block is its length (packed words + 8), 2 header words, 6 of packing
            n = SInt.var('packed words')
            i = SInt.var('word')
            c.assume(sand(n >= 0, i >= 0, i < n, at(nf) == n + 8))
            c.oblige('words the reader takes', val_eq(at(p) - hl, n + 6))
            c.oblige('packed words follow the six of the packing', val_eq(
                byte(first, 6 + i), byte(nf, 9 + i)))
            return
        v = SReal.var('value given')
        if name == 'SurfaceFile':
            c.assume(at(nf) == 1 + np_)
            c.assume(real(nf, 2 + a) == v)
            c.oblige('value', real(first, a) == v)
            c.oblige('values the reader takes', val_eq(at(p) - hl, np_))
            return
        c.assume(at(nf) == 1 + lev * np_)
        c.assume(real(nf, 2 + k * np_ + a) == v)
        c.oblige('value', real(first, k * np_ + a) == v)
        c.oblige('values the reader takes', val_eq(at(p) - hl, lev * np_))
    return body


def sections(name):
    """Headers are read from where they are written."""
    def body(c):
        h = setup(c, name)
        me = h.me
        pointers(h, c)
        g = SInt.var('header')
        c.assume(g >= 0)
        for dim, ks, ptr in (('row', me.row_names, me.row_headers_ptr),
                             ('column', me.column_names, me.column_headers_ptr)):
            K = len(ks)
            P = SInt.var(f'{dim} headers at')
            c.assume(at(LABEL[f'{dim}_headers_ptr']) == P)    # written into the label
            for j, (n, v) in enumerate(heads(dim, ks, g).items()):
                w = P + g * (K + 1) + 1 + j
                i = zi(byte(w))
                if isinstance(v, SStr):
                    c.oblige(f'word of {n}', v == SStr(TEXT(i, z3.IntVal(4))))
                elif n in ('SLAT', 'SLON'):
                    c.oblige(f'word of {n}', v == SInt.of(INT(i)) / 100)
                else:
                    c.oblige(f'word of {n}', val_eq(getattr(v, 'word', v),
                                                    SInt.of(INT(i))))
        c.cover('sections')
    return body


BODIES = {}
for _n in CLASSES:
    BODIES[f'{_n} layout'] = names(_n)
    BODIES[f'{_n} label'] = label(_n)
    BODIES[f'{_n} sections'] = sections(_n)
    BODIES[f'{_n} header'] = header(_n)
    BODIES[f'{_n} entry'] = entry(_n)


def run(name, body, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
