"""C25: decoding of vector graphic files stays aligned.

Every `_decode_*` method, started anywhere in a buffer of any length and content at the body of a
well-formed record of its kind (any header, any counts within the documented limits), appends
exactly one element of its class, whose header and attributes are the fields of those bytes (the
layout tables below are written from GEMPAK's vgstruct.h), and leaves the buffer exactly at the
end of the record.  `_decode_elements`, cut by a loop invariant, moves from the start of one record
to the start of the next (offset + record size of its own header) whatever the kind, and stops only
at the end of the data or at an incomplete or invalid header, keeping what came before.
"""
import datetime

import z3

from contracts.vgf_encode import models, reader, within
from pyvc.bytesm import Field, SBytes, before_nul
from pyvc.core import (Ctx, SInt, SReal, Sym, Unsupported, is_sym, ite, mkbool, mknot, sand,
                       simplies, sor, to_real, val_eq)
from pyvc.interp import Interp, LoopContract
from pyvc.models import SSeq, SStr
from pyvc.nparr import SArr
from vp.vgfref import ANCH, BARB, HEAD, SPTEXT, TC, WATCH_TAIL


def half(nd):
    return SReal(z3.RealVal(1) / z3.RealVal(2 * 10 ** nd))


def text_at(data, off, n, strip=None):
    t = SBytes([before_nul(data.segs[0].sub(off, n))]).decode()
    return t


def is_text(v, t):
    """v is the text t, with or without the blanks around it."""
    if isinstance(v, str) or not isinstance(v, SStr):
        return False
    a = [t, t.strip(), t.replace('$$', '\n').strip()]
    return sor(*[mkbool(v.t == x.t) for x in a])


class Rec:
    """An item of a list inside a record (opaque; its contract is checked where it is made)."""

    def __init__(self, what, i):
        self.what, self.i = what, i


class Reads(LoopContract):
    """A loop reading `n` items of `stride` bytes: item k is read at start + k * stride."""

    def __init__(self, h):
        self.h = h
        self.sp = None

    comprehension_ok = True

    def applies(self, f, interp):
        return bool(self.h.loops) and f.locals.get('self') is self.h.reader or (
            bool(self.h.loops) and self.owner(f))

    def owner(self, f):
        p = f
        while p is not None:
            if p.locals.get('self') is self.h.reader:
                return True
            p = p.parent
        return False

    names = ('self',)

    def begin(self, f, interp, seq):
        self.sp = self.h.loops.pop(0)
        self.cur = None
        self.lists = [k for k, v in f.locals.items() if isinstance(v, list) and not v]

    def inv(self, f, interp, seq, k):
        sp = self.sp
        out = [('offset', self.h.reader._buffer._offset == sp['at'] + k * sp['stride']),
               ('count', seq.length == sp['n'])]
        if self.lists and is_sym(k) and self.cur is not None and not val_eq(k, self.cur) is True:
            for nm in self.lists:
                v = f.locals[nm]
                if v is self.given[nm] and isinstance(v, SSeq) and v.length is self.cur:
                    continue
                out.append((f'{nm} length', v.length == k))
                for what, cond in sp['check'](v.item(k - 1), k - 1):
                    out.append((f'{nm} {what}', cond))
        return out

    def havoc(self, f, interp, seq, k):
        sp = self.sp
        self.h.reader._buffer._offset = sp['at'] + k * sp['stride']
        self.cur = k
        self.given = {}
        for nm in self.lists:
            self.given[nm] = f.locals[nm] = SSeq(k, lambda i: Rec(sp['attr'], i))

    def element(self, f, interp, k, v):
        for what, cond in self.sp['check'](v, k):
            ctx_oblige(f'{self.sp["attr"]} item {what}', cond)

    def comprehension(self, f, interp, n):
        return SSeq(n, lambda i, a=self.sp['attr']: Rec(a, i))

    keeps = ()


def ctx_oblige(n, c):
    from pyvc.core import ctx
    ctx().oblige(n, c)


class Shape:
    """The layout of one record: reads expectations from the bytes while walking over it."""

    def __init__(self, c, data, off, h):
        self.c, self.data, self.start, self.pos, self.h = c, data, off, off, h
        self.exp = []        # (attribute, kind, expected)
        self.loops = []
        self.reader = None

    def field(self, off, code, order='>'):
        return self.data.field(off, code, order)

    def read(self, layout, order='>', rename=None, drop=(), swap=(), at=None, exp=None):
        rename = rename or {}
        exp = self.exp if exp is None else exp
        pos = self.pos if at is None else at
        out = {}
        for item in layout.split():
            name, fmt = item.split(':')
            attr = rename.get(name, name)
            if fmt[-1] == 's':
                n = int(fmt[:-1])
                e = ('text', text_at(self.data, pos, n))
                pos = pos + n
            elif fmt[0] == 'f':
                nd = int(fmt[1:] or 2)
                v = self.field(pos, 'f', order)
                e = ('real', v, nd)
                out[name] = v
                pos = pos + 4
            else:
                v = self.field(pos, fmt, order)
                if name in swap:
                    v = SBytes([Field('I', '<', v)]).field(0, 'I', '>')
                out[name] = v
                e = ('int', v)
                pos = pos + 4
            if e[0] == 'text':
                out[name] = e[1]
            if name not in drop:
                exp.append((attr, *e))
        if at is None:
            self.pos = pos
        return out

    def skip(self, n):
        self.pos = self.pos + n

    def array(self, n, attr, code='f', room=None, nd=2, closed=False, flipped=False):
        at = self.pos
        self.exp.append((attr, 'array', n, lambda i: self.field(at + 4 * i, code), nd, closed,
                         flipped))
        self.pos = self.pos + 4 * (n if room is None else room)

    def points(self, n, room=None, lat='lat', lon='lon', **k):
        self.array(n, lat, **k)
        self.array(n, lon, **k)
        if room is not None:
            self.pos = self.pos + 8 * (room - n)

    def items(self, n, stride, attr, check, room=None):
        self.loops.append({'n': n, 'stride': stride, 'attr': attr, 'at': self.pos,
                           'check': lambda v, i, at=self.pos: check(v, at + i * stride)})
        self.exp.append((attr, 'items', n))
        self.pos = self.pos + stride * (n if room is None else room)

    def need(self, cond):
        self.c.assume(cond)

    def record(self, layout, get=getattr):
        def check(v, at):
            exp = []
            self.read(layout, at=at, exp=exp)
            out = []
            for a, kind, e, *r in exp:
                x = v._attrs.get(a) if hasattr(v, '_attrs') else getattr(v, a, None)
                out.append((a, value_ok(x, kind, e, *r)))
            return out
        return check

    def text_item(self, n):
        return lambda v, at: [('text', is_text(v, text_at(self.data, at, n)))]


def value_ok(x, kind, e, *r):
    if x is None:
        return False
    if kind == 'text':
        return is_text(x, e)
    if kind == 'real':
        return within(x, e, half(r[0]))
    return val_eq(x, e)


# ------------------------------------------------------------------------------ the records

def counted(lo, hi, v):
    return sand(v >= lo, v <= hi)


def line(s):
    f = s.read('number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i')
    n = f['number_points']
    s.need(counted(1, 500, n))
    s.need(counted(0, 99, f['line_type']))
    s.points(n, closed=sand(s.h['closed'] != 0, n > 2))


def special_line(s):
    f = s.read('number_points:i line_type:i stroke:i direction:i size:f1 width:i')
    n = f['number_points']
    s.need(counted(1, 500, n))
    s.need(counted(1, 26, f['line_type']))
    s.points(n, closed=sand(s.h['closed'] != 0, n > 2), flipped=f['direction'] == -1)


def front(s):
    f = s.read('number_points:i front_code:i pip_size:i pip_stroke:i pip_direction:i width:i '
               'label:4s')
    s.need(counted(1, 500, f['number_points']))
    s.need(f['front_code'] // 100 == s.part)
    s.points(f['number_points'])


def symbol(s):
    f = s.read('number_symbols:i width:i size:f1 symbol_type:i symbol_code:f0 lat:f lon:f '
               'offset_x:i offset_y:i', drop=('symbol_code',))
    s.exp.append(('symbol_code', 'int', f['symbol_code'].trunc()))


def circle(s):
    f = s.read('number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i')
    s.need(counted(1, 500, f['number_points']))
    s.need(counted(0, 99, f['line_type']))
    s.points(f['number_points'])


def lists(s):
    f = s.read('list_type:i marker_type:i marker_size:f1 marker_width:i number_items:i')
    n = f['number_items']
    s.need(counted(0, 500, n))
    s.need(counted(1, 5, f['list_type']))
    s.need(counted(0, 24, f['marker_type']))
    s.items(n, 9, 'list_items', s.text_item(9), room=500)
    s.array(n, 'lat', room=500)
    s.array(n, 'lon', room=500)


def text_of(s, n, attr='text'):
    s.exp.append((attr, 'text', text_at(s.data, s.pos, n)))
    s.pos = s.pos + n


def text(s):
    s.read('rotation:f1 size:f3 font:i text_flag:i width:i align:i lat:f lon:f offset_x:i '
           'offset_y:i')
    n = SInt.var('text.size')
    s.need(n >= 0)
    text_of(s, n)


def special_text(s):
    s.read(SPTEXT, rename={'text_size': 'size'})
    n = SInt.var('text.size')
    s.need(n >= 0)
    text_of(s, n)


TRACK = 'track_type:i total_points:i initial_points:i initial_line_type:i ' \
        'extrapolated_line_type:i initial_mark_type:i extrapolated_mark_type:i line_width:i ' \
        'speed:f direction:f increment:i'


def track(s):
    era = s.c.choose([0, 1, 2])
    base = s.pos
    f = s.read(TRACK + ' skip:i' * (era > 0) + ' font:i font_flag:i' * (era > 1))
    n = f['total_points']
    s.need(counted(1, 50, n))
    skip, font = s.field(base + 44, 'i'), s.field(base + 48, 'i')
    if era == 0:
        s.need(mknot(counted(-3, 4, skip)))
        s.exp.append(('skip', 'int', 0))
    else:
        s.need(counted(-3, 4, skip))
    if era == 1:
        s.need(mknot(counted(0, 33, font)))
    if era < 2:
        s.exp += [('font', 'int', 1), ('font_flag', 'int', 2), ('font_size', 'real', 1, 1)]
    else:
        s.need(counted(0, 33, font))
        s.exp.append(('font_size', 'real', s.field(s.pos, 'f', '<'), 1))
        s.skip(4)
    s.items(n, 18, 'times', s.text_item(18), room=50)
    s.points(n, room=50)


SIGMET = 'subtype:i number_points:i line_type:i line_width:i side_of_line:i area:8s ' \
    'flight_info_region:32s status:i distance:f message_id:12s sequence_number:i ' \
    'start_time:20s end_time:20s remarks:80s sonic:i phenomena:32s {}' \
    'trend:8s movement:8s type_indicator:i type_time:20s flight_level:i speed:i ' \
    'direction:4s tops:80s forecaster:16s'


def sigmet(s):
    v1 = 'phenomena2:32s phenomena_name:36s phenomena_lat:8s phenomena_lon:8s pressure:i ' \
         'max_wind:i free_text:256s '
    f = s.read(SIGMET.format(v1 if s.h['version'] == 1 else ''), drop=('status',))
    s.need(counted(1, 500, f['number_points']))
    s.points(f['number_points'])


def ccf(s):
    f = s.read('subtype:i number_points:i coverage:i storm_tops:i probability:i growth:i '
               'speed:f direction:f')
    s.read('text_lat:f text_lon:f arrow_lat:f arrow_lon:f high_fill:i med_fill:i low_fill:i '
           'line_type:i arrow_size:f1', '<', drop=('text_lat', 'text_lon', 'arrow_lat',
                                                   'arrow_lon', 'high_fill', 'med_fill',
                                                   'low_fill', 'line_type', 'arrow_size'))
    n = f['number_points']
    s.need(counted(1, 100, n))
    for off in (16, 20, 24):
        s.need(s.field(s.pos + off, 'i') >= 0)
    s.read(SPTEXT + ' text:255s', swap=('font', 'text_flag', 'width'),
           drop=('text_color', 'line_color', 'lat', 'lon'))
    s.skip(1)
    text_of(s, 256, 'text_layout')
    s.points(n, room=100)


def volcano(s):
    s.read('name:64s code:f1 size:f1 width:i number:17s location:17s area:33s '
           'origin_station:17s vaac:33s wmo_id:8s header_number:9s elevation:9s year:9s '
           'advisory_number:9s correction:4s info_source:256s additional_source:256s '
           'aviation_color:16s details:256s obs_date:16s obs_time:16s obs_ash:1024s '
           'forecast_6hr:1024s forecast_12hr:1024s forecast_18hr:1024s remarks:512s '
           'next_advisory:128s forecaster:64s')
    s.skip(3)
    s.read('lat:f lon:f offset_x:i offset_y:i')


def ash(s):
    f = s.read('subtype:i number_points:i distance:f forecast_hour:i line_type:i line_width:i '
               'side_of_line:i speed:f speeds:16s direction:4s flight_level1:16s '
               'flight_level2:16s')
    s.read(SPTEXT, rename={'lat': 'text_lat', 'lon': 'text_lon'})
    text_of(s, 255)
    s.skip(1)
    n = f['number_points']
    s.need(counted(1, 50, n))
    s.points(n)
    pad = SInt.var('padding')
    s.need(counted(0, 50 - n, pad))
    s.skip(8 * pad)


def gfa(s):
    f = s.read('number_blocks:i number_points:i')
    s.need(counted(0, 10000, f['number_blocks']))
    s.need(counted(1, 500, f['number_points']))
    s.items(f['number_blocks'], 1024, 'blocks', s.text_item(1024))
    s.points(f['number_points'])


def jet(s):
    exp, s.exp = s.exp, []
    f = s.read('line_color:i number_points:i line_type:i stroke:i direction:i size:f1 width:i')
    n = f['number_points']
    s.need(counted(1, 500, n))
    s.points(n, room=500)
    exp.append(('line_attribute', 'object', s.exp))
    s.exp = exp
    k = s.read('number_barbs:I')['number_barbs']
    s.need(counted(0, 50, k))
    s.items(k, 26 * 4 + 256, 'barb_attributes', s.record(
        BARB + ' flight_level_color:i text_rotation:f1 text_size:f3 text_type:i '
        'turbulence_symbol:i font:i text_flag:i text_width:i text_color:i line_color:i '
        'fill_color:i align:i text_lat:f text_lon:f offset_x:i offset_y:i text:255s'), room=50)
    k = s.read('number_hashes:I')['number_hashes']
    s.need(counted(0, 50, k))
    s.items(k, 40, 'hash_attributes', s.record(BARB), room=50)


def tca(s):
    n = SInt.var('text.size')
    s.need(n >= 0)
    s.skip(n)


def number(t):
    return SInt.of(z3.Function('str.int', SStr.S, z3.IntSort())(t.t))


def tc(s, more):
    f = s.read(TC + ' ' + more, drop=('basin', 'storm_type', 'valid_time'))
    for nm, hi in (('basin', 3), ('storm_type', 4)):
        v = number(f[nm].strip())
        s.need(counted(0, hi, v))
        s.exp.append((nm, 'int', v))
    s.exp.append(('valid_time', 'when', f['valid_time'].strip()))
    return f


def tc_error(s):
    n = tc(s, 'line_color:i line_type:i fill_color:i fill_type:i number_points:i')[
        'number_points']
    s.need(counted(1, 500, n))
    s.points(n)


POINT = 'lat:f lon:f ' + ' '.join(f'{k}:50s' for k in [
    'advisory_date', 'tau', 'max_wind', 'wind_gust', 'minimum_pressure', 'development_level',
    'development_label', 'direction', 'speed', 'date_label', 'storm_source'])


def tc_track(s):
    n = tc(s, 'line_color:i line_type:i number_points:i')['number_points']
    s.need(counted(0, 10000, n))
    s.items(n, 560, 'track_points', s.record(POINT))


def tc_break(s):
    f = tc(s, 'line_color:i line_width:i ww_level:i number_points:i')
    s.need(counted(0, 3, f['ww_level']))
    s.need(counted(0, 10000, f['number_points']))
    s.items(f['number_points'], 264, 'breakpoints', s.record('lat:f lon:f name:256s'))


def sgwx(s):
    f = s.read('subtype:i number_points:i text_lat:f text_lon:f arrow_lat:f arrow_lon:f '
               'line_element:i line_type:i line_width:i arrow_size:f1 special_symbol:i '
               'weather_symbol:i')
    s.read(SPTEXT, rename={'rotation': 'text_rotation', 'width': 'text_width',
                           'align': 'text_align'}, drop=('lat', 'lon'))
    text_of(s, 255)
    s.skip(1)
    n = f['number_points']
    s.need(counted(1, 256, n))
    s.points(n, room=256, lat='area_lat', lon='area_lon')


def watch(s):
    v = s.h['version']
    mx = 400 if v >= 5 else 200
    if v == 0:
        f = s.read('number_points:i style:i watch_type:i number:i filename:128s shape:i')
    else:
        lay = 'number_points:i style:i shape:i '
        if v == 6:
            lay += 'marker_type:i marker_size:f1 marker_width:i '
        if v >= 3:
            lay += ANCH.format(0) + ' ' + ANCH.format(1) + ' '
        lay += 'status:i number:i ' + WATCH_TAIL.format(80 if v >= 4 else 20)
        if v >= 2:
            lay += ' number_counties:i plot_counties:i'
        f = s.read(lay)
    k = f.get('number_counties', 0)
    s.need(counted(0, mx, k))
    if 'marker_type' in f:
        s.need(counted(0, 24, f['marker_type']))
    s.need(counted(1, 500, f['number_points']))
    for nm, on in (('county_status', v in (2, 3, 4)), ('county_fips', v >= 4)):
        if on:
            s.array(k, nm, 'i', room=mx)
    if v >= 2:
        s.points(k, room=mx, lat='county_lat', lon='county_lon')
    n = f['number_points']
    s.points(n, closed=n > 2)





def wind(s):
    s.read('number_wind:i width:i size:f1 wind_type:i head_size:f1 speed:f direction:f lat:f '
           'lon:f')


# kind: (class, types, versions, decoder, element class, layout)
KINDS = {
    'line': (3, [1], None, '_decode_lines', 'LineElement', line),
    'special line': (3, [20], None, '_decode_special_lines', 'SpecialLineElement', special_line),
    'front': (1, None, None, '_decode_fronts', 'FrontElement', front),
    'symbol': (4, None, None, '_decode_symbols', 'SymbolElement', symbol),
    'circle': (12, [4], None, '_decode_circles', 'CircleElement', circle),
    'list': (14, None, None, '_decode_lists', 'ListElement', lists),
    'text': (5, [17, 18], None, '_decode_text', 'TextElement', text),
    'special text': (5, [21], None, '_decode_special_text', 'SpecialTextElement', special_text),
    'track': (10, None, None, '_decode_tracks', 'TrackElement', track),
    'sigmet': (11, [27, 28, 29, 30, 31], [0, 1], '_decode_sigmet', 'SigmetElement', sigmet),
    'ccf': (11, [32], None, '_decode_ccf', 'CollaborativeConvectiveForecastElement', ccf),
    'volcano': (11, [35], None, '_decode_volcanoes', 'VolcanoElement', volcano),
    'ash cloud': (11, [36], None, '_decode_ash_clouds', 'AshCloudElement', ash),
    'gfa': (15, [38], None, '_decode_gfa', 'GraphicalForecastAreaElement', gfa),
    'jet': (15, [37], None, '_decode_jet', 'JetElement', jet),
    'tca': (15, [39], None, '_decode_tca', 'TropicalCycloneAdvisoryElement', tca),
    'tc error cone': (15, [40], None, '_decode_tc_error', 'TropicalCycloneErrorElement',
                      tc_error),
    'tc track': (15, [41], None, '_decode_tc_track', 'TropicalCycloneTrackElement', tc_track),
    'tc break points': (15, [42], None, '_decode_tc_break_point',
                        'TropicalCycloneBreakPointElement', tc_break),
    'sgwx': (15, [43], None, '_decode_sgwx', 'SignificantWeatherElement', sgwx),
    'watch': (2, [6], [0, 1, 2, 3, 4, 5, 6], '_decode_watches', 'WatchBoxElement', watch),
    'wind': (6, None, None, '_decode_winds', 'WindElement', wind),
}


class When:
    """A time of a text that is a valid one."""

    def __init__(self, text, fmt, tz=None):
        self.text, self.fmt, self.tz = text, fmt, tz

    def replace(self, tzinfo=None):
        return When(self.text, self.fmt, tzinfo)


class Found(Sym):
    def __init__(self, t):
        self.t = t

    def group(self, *a):
        return self.t


def library(M):
    old_int = M.table[id(int)][1]
    M.reg(int, lambda it, a, k: number(a[0]) if a and isinstance(a[0], SStr) else old_int(
        it, a, k))
    old_float = M.table[id(float)][1]
    M.reg(float, lambda it, a, k: SReal(z3.Function('str.float', SStr.S, z3.RealSort())(
        a[0].t)) if a and isinstance(a[0], SStr) else old_float(it, a, k))

    def strptime(it, slf, a, k):
        return When(*a) if isinstance(a[0], SStr) else NotImplemented
    M.table[(id(type), 'strptime')] = strptime
    import re

    def search(it, a, k):
        if not isinstance(a[1], SStr):
            return NotImplemented
        r = a[1]._fn(f'search.{a[0]}')
        if 'wwNum' in str(a[0]):
            from pyvc.core import ctx
            ctx().assume(number(r) == 0)
        return Found(r)
    M.reg(re.search, search)
    return M


def header(data, at, fixed):
    h = {}
    off = at
    for item in HEAD.split():
        nm, code = item.split(':')
        h[nm] = data.field(off, code, '>')
        off = off + (4 if code in 'if' else 1)
    return h


def attribute(it, e, a):
    return it.getattr(e, a)


def check_exp(c, it, e, exp, what):
    for a, kind, *r in exp:
        try:
            v = attribute(it, e, a)
        except AttributeError:
            c.oblige(f'{what}.{a} present', False)
            continue
        if kind == 'object':
            check_exp(c, it, v, r[0], f'{what}.{a}')
        elif kind == 'items':
            ok = isinstance(v, SSeq)
            c.oblige(f'{what}.{a}', sand(v.length == r[0], isinstance(v.item(0), Rec)
                                         and v.item(0).what == a) if ok else False)
        elif kind == 'array':
            n, get, nd, closed, flipped = r
            total = n + 1 if closed is not False and bool(closed) else n
            if isinstance(v, SSeq) or not isinstance(v, SArr):
                c.oblige(f'{what}.{a} array', sand(total == 0, len(v) == 0)
                         if hasattr(v, '__len__') else False)
                continue
            c.oblige(f'{what}.{a} count', v.shape[0] == total)
            g = SInt.var('g')
            c.assume(g >= 0)
            if not g < n:
                continue
            i = g
            if flipped is not False and bool(flipped):
                i = total - 1 - g
            x, w = v.at(i), get(g)
            c.oblige(f'{what}.{a} each', within(x, w, half(nd)) if isinstance(w, SReal)
                     else val_eq(x, w))
            if total is not n:
                last = 0 if i is not g else n
                c.oblige(f'{what}.{a} closed', within(v.at(last), get(0), half(nd)))
        elif kind == 'when':
            c.oblige(f'{what}.{a}', sand(isinstance(v, When), v.text == r[0] if isinstance(
                v, When) else False))
        else:
            c.oblige(f'{what}.{a}', value_ok(v, kind, *r))


def setup(c, kind, part=None):
    cls, types, versions, fn, ecls, layout = KINDS[kind]
    N, o = SInt.var('N'), SInt.var('o')
    c.assume(sand(o >= 0, N >= 0))
    data = SBytes.arbitrary('data', N, bytearray)
    h = header(data, o, {})
    if versions:
        v = c.choose(versions)
        c.assume(h['version'] == v)
        h = dict(h, version=v)
    c.assume(h['vg_class'] == cls)
    if types:
        c.assume(sor(*[h['vg_type'] == t for t in types]))
    s = Shape(c, data, o + 40, h)
    s.part = part
    layout(s)
    size = s.pos - o
    c.assume(h['record_size'] == size)
    c.assume(o + size <= N)
    r = reader(data, o)
    s.reader = r
    return r, s, h, o, size


def body_kind(c, kind, part=None):
    cls, types, versions, fn, ecls, layout = KINDS[kind]
    r, s, h, o, size = setup(c, kind, part)
    M = library(models())
    if kind in ('watch', 'list'):
        M.enum_of = enum_member
    lc = Reads(s)
    it = Interp(M, loops=[('', None, lc)])
    hs = it.call(it.getattr(r, '_read_header'), ())
    c.oblige(f'{kind}.header read', r._buffer._offset == o + 40)
    if versions:
        hs = hs._replace(version=h['version'])
    before = r._elements
    it.call(it.getattr(r, fn), (hs,))
    c.oblige(f'{kind}.consumed its record', r._buffer._offset == o + size)
    c.oblige(f'{kind}.one element', r._elements is before and len(before) == 1)
    e = before[0]
    c.oblige(f'{kind}.class', type(e).__name__ == ecls)
    for item in HEAD.split():
        nm, code = item.split(':')
        x = attribute(it, e, nm)
        c.oblige(f'{kind}.header.{nm}', within(x, h[nm], half(2)) if code == 'f' else
                 val_eq(x, h[nm]))
    check_exp(c, it, e, s.exp, kind)
    c.oblige(f'{kind}.all loops met', not s.loops)
    c.cover(kind)


# -------------------------------------------------------------------------- the element loop

SUPPORTED = {}
for _k, (_cls, _types, _v, _fn, _e, _l) in KINDS.items():
    for _t in _types or [None]:
        SUPPORTED[_cls, _t] = _fn
CLASSES, TYPES = range(17), [1, 2, *range(4, 44)]
COLORS = 32


DECODERS = {*SUPPORTED.values(), '_decode_file_header'}


def valid(h, n):
    """vgstruct.h / cvgrdhdr.c: the header of a record that can be trusted."""
    return sand(h['delete'] <= 1, sor(*[h['vg_type'] == t for t in TYPES]),
                h['vg_class'] <= CLASSES[-1], h['major_color'] >= 0, h['major_color'] <= COLORS,
                h['minor_color'] >= 0, h['minor_color'] <= COLORS, h['record_size'] >= 40,
                h['record_size'] <= n)


class Groups(Sym):
    """The group types met so far: any set, plus those appended in this step."""

    def __init__(self):
        self.f = z3.Function('groups.has', z3.IntSort(), z3.BoolSort())
        self.new = []

    def __contains__(self, x):
        return bool(self.has(x))

    def has(self, x):
        return mkbool(self.f(SInt.of(x).t if not isinstance(x, SInt) else x.t))

    def append(self, x):
        self.new.append(x)


class Elements(LoopContract):
    """One turn of the element loop starts anywhere, at a record start `o`."""

    names = ('self',)

    def __init__(self, reader):
        self.reader = reader
        self.start = None

    def applies(self, f, interp):
        return f.locals.get('self') is self.reader

    keeps = ('self', 'more')

    def havoc(self, f, interp, seq, k):
        from pyvc.core import ctx
        c = ctx()
        v = self.reader
        self.o = v._buffer._offset = SInt.var('o')
        c.assume(self.o >= 0)
        self.before = object()
        self.list = v._elements = [self.before]
        self.groups = v._groups = Groups()
        self.header = v._header = object()
        self.calls = []
        for nm, x in list(f.locals.items()):
            if x is True or x is False:
                f.locals[nm] = True         # a flag that ends the loop has not been lowered
        self.h = header(self.start, self.o, {})
        self.stepping = True

    def inv(self, f, interp, seq, k):
        v = self.reader
        if k == 0:
            return [('starts at the first byte', v._buffer._offset == 0),
                    ('starts without elements', isinstance(v._elements, list)
                     and not v._elements),
                    ('starts without groups', isinstance(v._groups, list) and not v._groups)]
        if k is None:
            return []
        return self.step(f)

    def lowered(self, f):
        return any(x is False for x in f.locals.values())

    def step(self, f):
        v, h, n = self.reader, self.h, self.n
        ok = valid(h, n)
        out = [('reads the header of the record', self.o + 40 <= n)]
        if self.lowered(f):
            return out + [('stops only at an invalid header', mknot(ok)),
                          ('keeps the elements', self.kept(0)),
                          ('stops without decoding', not self.calls)]
        out += [('goes on only after a valid header', ok),
                ('moves to the next record', v._buffer._offset == self.o + h['record_size']),
                ('keeps the elements', v._elements is self.list
                 and self.list[0] is self.before),
                ('ends with its own element', self.one())]
        g = h['group_type']
        new = sand(mknot(self.groups.has(g)), g != 0, h['vg_class'] != 0)
        out.append(('notes its group once', sand(len(self.groups.new) == 1, new,
                                                 self.groups.new[0] == g)
                    if self.groups.new else mknot(new)))
        return out

    def domain(self, fn):
        """The records the decoder is for."""
        h = self.h
        if fn == '_decode_file_header':
            return sand(h['vg_class'] == 0, h['vg_type'] == 22)
        return sor(*[sand(h['vg_class'] == c, True if t is None else h['vg_type'] == t)
                     for (c, t), d in SUPPORTED.items() if d == fn])

    def one(self):
        names = [fn for fn, _h, _o in self.calls]
        if len(names) > 1:
            return False
        if names:
            ok = self.domain(names[0])
        else:
            ok = mknot(sor(*[self.domain(d) for d in DECODERS]))
        return sand(ok, self.kept(names != [] and names != ['_decode_file_header']))

    def kept(self, more):
        return self.reader._elements is self.list and len(self.list) == 1 + bool(more) \
            and self.list[0] is self.before

    def on_break(self, f, interp, seq, k):
        ctx_oblige('stops without a next record only when no whole header is left',
                   sand(sor(self.n - self.o < 40, mknot(valid(self.h, self.n)))))
        ctx_oblige('keeps the elements when it stops', self.kept(0) and not self.calls)


def decoder_contract(lc, fn):
    def call(it, f, args, kwargs):
        v, hs = args
        from pyvc.core import ctx
        c = ctx()
        h, o = lc.h, lc.o
        c.oblige(f'{fn} is given the record body', v._buffer._offset == o + 40)
        for item in HEAD.split():
            nm, code = item.split(':')
            x = it.getattr(hs, nm)
            c.oblige(f'{fn} is given {nm}', within(x, h[nm], half(2)) if code == 'f'
                     else val_eq(x, h[nm]))
        v._buffer._offset = o + h['record_size']
        lc.calls.append((fn, hs, o))
        if fn != '_decode_file_header':
            v._elements.append(Rec(fn, o))
        return None
    return call


class Member(Sym):
    """A member of an enumeration, by its value."""

    def __init__(self, cls, value):
        self.value = value
        self.name = SStr.var(f'{cls.__name__}.name')


def enum_member(it, cls, v):
    if not sor(*[v == m.value for m in cls]):
        raise ValueError(f'not a valid {cls.__name__}')
    return Member(cls, v)


class FileOf:
    def __init__(self, data):
        self.data = data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, n=-1):
        return self.data


def body_loop(c):
    """VectorGraphicFile(path) on a file of any content, one arbitrary turn of its loop."""
    from gempakio.decode import vgf as D
    N = SInt.var('N')
    c.assume(N >= 0)
    data = SBytes.arbitrary('data', N, bytes)
    M = library(models())
    M.reg(open, lambda it, a, k: FileOf(data))
    M.enum_of = enum_member
    lc = Elements(None)
    lc.start, lc.n = data, N
    lc.stepping = False
    q = f'{D.__name__}.VectorGraphicFile.'
    ks = {q + fn: decoder_contract(lc, fn) for fn in sorted(DECODERS)}
    it = Interp(M, contracts=ks, loops=[('', None, lc)])
    v = object.__new__(D.VectorGraphicFile)
    lc.reader = v
    it.call(it.getattr(v, '__init__'), ('a path',))
    # the loop has ended
    c.oblige('the elements are those decoded', it.getattr(v, 'elements') is lc.list)
    c.oblige('the groups are those noted', it.getattr(v, 'groups') is lc.groups)
    c.oblige('the header is the one read', it.getattr(v, 'header') is lc.header)
    c.cover('ended')


def body_file_header(c):
    N, o = SInt.var('N'), SInt.var('o')
    c.assume(sand(o >= 0, N >= 0))
    data = SBytes.arbitrary('data', N, bytearray)
    h = header(data, o, {})
    c.assume(sand(h['vg_class'] == 0, h['vg_type'] == 22, h['record_size'] >= 168,
                  o + h['record_size'] <= N))
    v = reader(data, o)
    it = Interp(library(models()))
    hs = it.call(it.getattr(v, '_read_header'), ())
    it.call(it.getattr(v, '_decode_file_header'), (hs,))
    c.oblige('file header.consumed its record', v._buffer._offset == o + h['record_size'])
    c.oblige('file header.no element', v._elements == [])
    e = it.getattr(v, 'header')
    c.oblige('file header.version', is_text(it.getattr(e, 'gempak_version'),
                                            text_at(data, o + 40, 128)))
    v = it.getattr(e, 'notes')
    n = h['record_size'] - 168
    c.oblige('file header.notes', n == 0 if isinstance(v, str) and v == '' else
             is_text(v, text_at(data, o + 168, n)))
    c.cover('file header')


def run(name, body, deadline, timeout=15000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline, max_paths=40000)
    c.state_global = {}
    c.explore(body)
    return c


BODIES = {'element loop': body_loop, 'file header': body_file_header}
for _p in range(10):
    BODIES[f'front type {_p} record'] = lambda c, p=_p: body_kind(c, 'front', p)
for _k in KINDS:
    if _k != 'front':
        BODIES[f'{_k} record'] = lambda c, k=_k: body_kind(c, k)


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and sys.argv[1] not in n:
            continue
        t0 = time.time()
        c = run(n, b, None)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s',
              [k for k, v in c.covers.items() if not v], flush=True)
        for o in bad[:6]:
            print('   ', o.name, o.status, str(o.detail)[-900:], str(o.model)[:600])
