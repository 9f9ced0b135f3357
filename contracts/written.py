"""What the writers put in the words of a file (C07, C08, C09).

Of an arbitrary word of the keys, headers and parts of a file of any number of rows, columns
and parameters: the value put there is the one the format gives that word.  The words of data
blocks are decided in file_layout (pointer, length, time and every value).
"""
import z3

from contracts.file_layout import fn, interp, pointers, registered, run, section, setup, RR, SS, I
from contracts.real_decode import zi
from contracts.words import Words, field
from pyvc.core import SInt, SReal, ctx, is_sym, ite, sand, simplies, sor, val_eq
from pyvc.models import SStr


def put(c, what, w, kind, want):
    c.oblige(f'{what}: written', len(w.got) >= 1)
    k, v, _off = w.got[-1]
    c.oblige(f'{what}: as {kind}', k == kind)
    if callable(want):
        c.oblige(f'{what}: value', want(v))
    else:
        c.oblige(f'{what}: value', val_eq(v, want))


def headers(name, dim):
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        it = interp()
        rows = dim == 'row'
        names = me.row_names if rows else me.column_names
        n = h.rows if rows else h.cols
        p = me.row_headers_ptr if rows else me.column_headers_ptr
        K = len(names)
        g = SInt.var('ghost header')
        c.assume(sand(g >= 0, g < n))
        j = c.choose(list(range(K + 1)))
        w = Words(p, p + g * (K + 1) + j)
        w.hints = [g]
        it.call(it.getattr(me, f'_write_{dim if rows else "column"}_headers'), (w,))
        c.cover('header')
        if j == 0:
            put(c, 'use word', w, 'i', 9999)
            return
        key = names[j - 1]
        if key == 'GRID':
            put(c, key, w, 'i', 1)
            return
        head = (me.row_headers if rows else me.column_headers).item(g)
        v = getattr(head, key)
        from gempakio.common import HEADER_DTYPE as T
        if 's' in T[key]:
            put(c, key, w, 's', v)
        elif key == 'DATE':
            put(c, key, w, 'i', v.year % 100 * 10000 + v.month * 100 + v.day)
        elif key == 'TIME':
            put(c, key, w, 'i', v.hour * 100 + v.minute)
        elif key in ('SLAT', 'SLON'):
            put(c, key, w, 'i', lambda x: sand(2 * x - 200 * v <= 1, 200 * v - 2 * x <= 1))
        elif key in ('GDT1', 'GDT2'):
            if v == 0:
                put(c, key, w, 'i', 0)
                return
            typ, d = v
            short = d.year % 100 * 10000 + d.month * 100 + d.day
            long = d.month * 10**8 + d.day * 10**6 + d.year % 100 * 10**4 + \
                d.hour * 100 + d.minute
            put(c, key, w, 'i', short if bool(typ == 0) else long)
        elif key in ('GTM1', 'GTM2'):
            typ, hr, mn = v
            put(c, key, w, 'i', hr * 100 + mn if bool(typ == 0) else
                typ * 100000 + hr * 100 + mn)
        else:
            put(c, key, w, 'i', v)
    return body


def keys(name):
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        it = interp()
        which = c.choose(['row', 'column', *(['file'] if me._file_headers else [])])
        if which == 'file':
            j = c.choose(list(range(3 * len(me._file_headers))))
            w = Words(me.file_keys_ptr, me.file_keys_ptr + j)
            it.call(it.getattr(me, '_write_file_keys'), (w,))
            n = len(me._file_headers)
            nm = list(me._file_headers)[j % n]
            put(c, 'file key', w, 's' if j < n else 'i',
                nm if j < n else {'NAVB': 256, 'ANLB': 128}[nm] if j < 2 * n else 1)
            return
        names = me.row_names if which == 'row' else me.column_names
        j = c.choose(list(range(len(names))))
        p = me._row_keys_ptr if which == 'row' else me.column_keys_ptr
        w = Words(p, p + j)
        it.call(it.getattr(me, f'_write_{which}_keys'), (w,))
        c.cover('keys')
        put(c, f'{which} key', w, 's', names[j])
    return body


def parts(name):
    def body(c):
        h = setup(c, name)
        pointers(h, c)
        me = h.me
        it = interp()
        (pn, info), = me._parts_dict.items()
        p = me.parts_ptr
        g = SInt.var('ghost parameter')
        c.assume(sand(g >= 0, g < h.np))
        if not is_sym(h.np):
            c.assume(g == 0)
        what = c.choose(['name', 'header', 'type', 'count', 'parameter', 'rest'])
        off = {'name': 0, 'header': 1, 'type': 2, 'count': 3, 'parameter': 4 + g,
               'rest': None}[what]
        if what == 'rest':
            off = 4 + g + h.np * c.choose([1, 2, 3])
        w = Words(p, p + off)
        w.hints = [g]
        it.call(it.getattr(me, '_write_parts'), (w,))
        c.cover('parts')
        kind, want = {
            'name': ('s', {'GridFile': 'GRID', 'SoundingFile': 'SNDT',
                           'SurfaceFile': 'SFDT'}[name]),
            'header': ('i', 2 if name == 'GridFile' else 1),
            'type': ('i', 5 if name == 'GridFile' else 1),
            'count': ('i', h.np),
            'parameter': ('s', SStr(fn('parameter', I, SS)(zi(g))) if name != 'GridFile'
                          else 'GRID'),
            'rest': ('i', 0)}[what]
        put(c, what, w, kind, want)
    return body


NAV = ('grid_definition_type', 'projection', 'left_grid_number', 'bottom_grid_number',
       'right_grid_number', 'top_grid_number', 'lower_left_lat', 'lower_left_lon',
       'upper_right_lat', 'upper_right_lon', 'proj_angle1', 'proj_angle2', 'proj_angle3')


class Coordinates:
    """The longitudes or latitudes of the grid: only read."""

    def __init__(self, name):
        self.f = fn(name, I, I, RR)

    def __getitem__(self, ij):
        return SReal(self.f(zi(ij[0]), zi(ij[1])))


def navigation(c):
    h = setup(c, 'GridFile')
    pointers(h, c)
    me = h.me
    me.nx, me.ny = SInt.var('nx'), SInt.var('ny')
    c.assume(sand(me.nx >= 1, me.ny >= 1))
    for n in ('lower_left_lat', 'lower_left_lon', 'upper_right_lat', 'upper_right_lon',
              'angle1', 'angle2', 'angle3'):
        setattr(me, n, SReal.var(n))
    me.lon, me.lat = Coordinates('lon'), Coordinates('lat')
    me.gemproj = c.choose(['LCC', 'CED', 'MER', 'STR'])
    it = interp()
    start = me.file_keys_ptr + 6
    off = SInt.var('word of the navigation block')
    c.assume(sand(off >= 0, off < 13))
    w = Words(start, start + 1 + off)
    if c.choose(['length', 'block']) == 'length':
        w.watch = start + 257 * c.choose([0, 1])
        it.call(it.getattr(me, '_write_file_headers'), (w,))
        put(c, 'length', w, 'i', 256 if bool(w.watch == start) else 128)
        return
    it.call(it.getattr(me, '_write_file_headers'), (w,))
    c.cover('navigation')
    c.oblige('navigation block written', len(w.got) == 1)
    st, kw, at = w.got[0]
    c.oblige('navigation block', hasattr(st, '_struct') and st.size == 1024)
    c.oblige('at its place', at == off)
    places = [field(st, k) for k in range(13)]
    c.oblige('its fields', places == [(n, 's' if n == 'projection' else 'f') for n in NAV])
    want = {'grid_definition_type': 2, 'projection': f'{me.gemproj:4s}'.encode(),
            'left_grid_number': 1, 'bottom_grid_number': 1, 'right_grid_number': me.nx,
            'top_grid_number': me.ny, 'proj_angle1': me.angle1, 'proj_angle2': me.angle2,
            'proj_angle3': me.angle3,
            **{n: getattr(me, n) for n in ('lower_left_lat', 'lower_left_lon',
                                           'upper_right_lat', 'upper_right_lon')}}
    for n, v in want.items():
        c.oblige(f'navigation {n}', val_eq(kw[n], v))


def bodies(name):
    d = {f'{name} column headers': headers(name, 'col'), f'{name} keys': keys(name),
         f'{name} parts': parts(name)}
    if name == 'GridFile':
        d['GridFile navigation'] = navigation
    else:
        d[f'{name} row headers'] = headers(name, 'row')
    return d


BODIES = {k: v for n in ('GridFile', 'SoundingFile', 'SurfaceFile')
          for k, v in bodies(n).items()}


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
