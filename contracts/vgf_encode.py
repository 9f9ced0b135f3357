"""C23, C24: encoding of vector graphic elements and reading them back.

For every element class, in any state its constructor and setters reach (attributes symbolic, any
number of points n with any real coordinates, any text of L bytes), `encode` returns bytes whose
length is the record size its own header declares, and every header and body field is the
attribute; the number of points stated is the number of coordinates that follow; the bounds
stated are the least and greatest coordinate.  (C24) The reader, started at an arbitrary offset of
a buffer at which those bytes stand, appends exactly one element of the right class carrying the
attributes, with coordinates and sizes rounded as documented, and advances by the record size.
"""
import z3

from contracts import vgf_setters as S
from contracts.vgf_setters import KINDS, LINEAR
from pyvc import bytesm, texts
from pyvc.bytesm import Arr, Raw, SBytes, Text
from pyvc.core import (Ctx, SBool, SInt, SReal, Sym, is_sym, ite, mkbool, mknot, sand, simplies,
                       sor, to_real, val_eq)
from pyvc.interp import Interp
from pyvc.models import Models, SSeq
from pyvc.nparr import SArr

HEAD = [('delete', 'B', 0), ('vg_type', 'B', 1), ('vg_class', 'B', 2), ('filled', 'b', 3),
        ('closed', 'B', 4), ('smooth', 'B', 5), ('version', 'B', 6), ('group_type', 'B', 7),
        ('group_number', 'i', 8), ('major_color', 'i', 12), ('minor_color', 'i', 16),
        ('record_size', 'i', 20), ('min_lat', 'f', 24), ('min_lon', 'f', 28),
        ('max_lat', 'f', 32), ('max_lon', 'f', 36)]
BODY = {
    'Line': [('n', 'i'), ('line_type', 'i'), (0, 'i'), ('width', 'i'), (0, 'i')],
    'SpecialLine': [('n', 'i'), ('line_type', 'i'), ('stroke', 'i'), ('direction', 'i'),
                    ('size', 'f'), ('width', 'i')],
    'Front': [('n', 'i'), ('front_code', 'i'), ('pip_size', 'i'), ('pip_stroke', 'i'),
              ('pip_direction', 'i'), ('width', 'i')],
    'SpecialText': [('rotation', 'f'), ('scaled', 'f'), ('text_type', 'i'),
                    ('turbulence_symbol', 'i'), ('font', 'i'), ('text_flag', 'i'),
                    ('width', 'i'), ('text_color', 'i'), ('edgecolor', 'i'), ('facecolor', 'i'),
                    ('align', 'i'), ('lat', 'f'), ('lon', 'f'), ('offset_x', 'i'),
                    ('offset_y', 'i')],
    'SpecialSymbol': [(1, 'i'), ('width', 'i'), ('size', 'f'), (0, 'i'), ('symbol_code', 'f'),
                      ('lat', 'f'), ('lon', 'f'), ('offset_x', 'i'), ('offset_y', 'i')],
}
BODY['Marker'] = BODY['SpecialSymbol']
FIXED = {k: 40 + 4 * len(v) + 4 * (k == 'Front') for k, v in BODY.items()}
TYPE = {'Line': (1, 3), 'SpecialLine': (20, 3), 'Front': (2, 1), 'SpecialText': (21, 5),
        'SpecialSymbol': (15, 4), 'Marker': (19, 4)}
I31 = 2**31


class Message(Sym):
    """A text of n characters, `size` bytes when encoded, without NUL, `$$` or outer blanks."""

    pytype = str

    def __init__(self, name, size, tail=''):
        self.name, self.size, self.tail = name, size, tail

    def __add__(self, o):
        return Message(self.name, self.size, self.tail + o)

    def encode(self, *a):
        segs = [Text(Message(self.name, self.size), self.size)]
        b = SBytes(segs)
        return b + self.tail.encode() if self.tail else b

    def replace(self, a, b):
        assert a == '$$' and b == '\n'
        return self

    def strip(self, *a):
        return self

    def __eq__(self, o):
        if isinstance(o, Message):
            return sand(self.name == o.name, self.tail == o.tail)
        return False

    __hash__ = Sym.__hash__


def models():
    M = texts.register(bytesm.register(Models()))
    return M


def coords(c, n):
    out = []
    for nm in ('lon', 'lat'):
        f = z3.Function(nm, z3.IntSort(), z3.RealSort())
        out.append(SSeq(n, lambda i, f=f: SReal(f(i.t if is_sym(i) else z3.IntVal(i)))))
    return out


def fits(c, kind, st):
    """Documented values that also fit their field."""
    c.assume(st['group_type'] <= 255)
    c.assume(st['group_number'] < I31)
    for n in ('font', 'pip_stroke', 'offset_x', 'offset_y', 'width'):
        if n in st:
            c.assume(sand(st[n] >= -I31, st[n] < I31))


def element(c, it, kind):
    more = {}
    if kind in LINEAR:
        n = SInt.var('n')
        c.assume(sand(n >= 2, n <= 500))
        g = SInt.var('g')
        c.assume(sand(g >= 0, g < n))
        c.state['ghosts'] = [(1, (g,))]
        lon, lat = coords(c, n)
        geo = {'n': n, 'g': g, 'lon': lon, 'lat': lat}
    else:
        lon, lat = SReal.var('lon'), SReal.var('lat')
        geo = {'lon': lon, 'lat': lat}
    if kind == 'SpecialText':
        size = SInt.var('text.bytes')
        c.assume(sand(size >= 0, size <= 254))
        geo['text'] = more['text'] = Message('text', size)
        geo['size'] = size
    el, st = S.build(c, it, kind, (lon, lat), **more)
    fits(c, kind, st)
    st = dict(st)
    if kind in ('SpecialSymbol', 'Marker', 'SpecialText'):
        st['lon'], st['lat'] = lon, lat
    if kind == 'SpecialText':
        st['scaled'] = to_real(st['size']) / 14
    if kind in LINEAR:
        st['n'] = geo['n']
    return el, st, geo


def default_state(kind, st):
    st = dict(st)
    for n in ('filled', 'closed', 'smooth', 'group_type', 'group_number'):
        st.setdefault(n, 0)
    return st


def body_encode(c, kind):
    it = Interp(models())
    el, st, geo = element(c, it, kind)
    b = it.call(it.getattr(el, 'encode'))
    st = default_state(kind, st)
    n = geo.get('n')
    want = FIXED[kind] + (8 * n if n is not None else 0)
    if kind == 'SpecialText':
        want = want + geo['size'] + 1
    t, cl = TYPE[kind]
    exp = dict(st, delete=0, version=0, vg_type=t, vg_class=cl, record_size=want)
    c.oblige(f'{kind}.encode.length', b.length == want)
    for nm, code, off in HEAD:
        v = b.field(off, code, '>')
        if nm[:4] in ('min_', 'max_'):
            a = geo[nm[4:]]
            if n is None:
                c.oblige(f'{kind}.header.{nm}', val_eq(v, a))
            else:
                x = a.item(geo['g'])
                c.oblige(f'{kind}.header.{nm} bounds every point',
                         v <= x if nm[:3] == 'min' else v >= x)
                c.oblige(f'{kind}.header.{nm} is of a point', attained(c, v, a, n))
        else:
            c.oblige(f'{kind}.header.{nm}', val_eq(v, exp[nm]))
    for k, (nm, code) in enumerate(BODY[kind]):
        v = b.field(40 + 4 * k, code, '>')
        c.oblige(f'{kind}.body.{nm}', val_eq(v, st[nm] if isinstance(nm, str) else nm))
    if n is not None:
        g = geo['g']
        c.oblige(f'{kind}.points.lat', val_eq(b.field(FIXED[kind] + 4 * g, 'f', '>'),
                                              geo['lat'].item(g)))
        c.oblige(f'{kind}.points.lon', val_eq(b.field(FIXED[kind] + 4 * n + 4 * g, 'f', '>'),
                                              geo['lon'].item(g)))
    if kind == 'SpecialText':
        s = b.segs[-2]
        c.oblige('text.content', sand(isinstance(s, Text), s.s == geo['text'] if isinstance(
            s, Text) else False))
        c.oblige('text.terminated', b.item(FIXED[kind] + geo['size']) == 0)
    c.cover(kind)


def attained(c, v, a, n):
    """v is one of the elements of a: the witness is the position min/max reported."""
    j = z3.Int('jwit')
    f = a.item(SInt.of(j)).t
    return mkbool(z3.Exists([j], z3.And(j >= 0, j < n.t, f == to_real(v).t)))


def body_sizes(c, kind):
    """Coordinates of unequal length, too many or too few points are refused."""
    from gempakio.encode import vgf as E
    it = Interp(models())
    n, m = SInt.var('n'), SInt.var('m')
    c.assume(sand(n >= 0, m >= 0))
    st = {}
    kw = S.arguments(c, kind, st)
    if kind == 'SpecialLine':
        kw['stroke'] = 50
    lon, _ = coords(c, n)
    _, lat = coords(c, m)
    ok = sand(n == m, n >= 2, n <= 500)
    try:
        el = it.call(getattr(E, kind), (lon, lat), kw)
    except ValueError:
        c.oblige(f'{kind}.sizes accepted', mknot(ok))
        return
    c.oblige(f'{kind}.sizes refused', ok)
    c.oblige(f'{kind}.count', val_eq(el._number_points, n))
    c.cover('sizes')


def body_text_size(c):
    from gempakio.encode import vgf as E
    it = Interp(models())
    size = SInt.var('text.bytes')
    c.assume(size >= 0)
    st = {}
    kw = S.arguments(c, 'SpecialText', st)
    kw['text'] = Message('text', size)
    try:
        it.call(E.SpecialText, (1., 2.), kw)
    except ValueError:
        c.oblige('text of up to 254 bytes accepted', size > 254)
        return
    c.oblige('text of more than 254 bytes refused', size <= 254)
    c.cover('text')


def body_header(c):
    from gempakio.encode import vgf as E
    it = Interp(models())
    h = it.call(E.FileHeader, ())
    b = it.call(it.getattr(h, 'encode'))
    if isinstance(b, (bytes, bytearray)):
        b = bytesm.as_bytes(bytes(b))
    c.oblige('file header length', b.length == 424)
    for nm, code, off in HEAD:
        want = {'vg_type': 22, 'record_size': 424}.get(nm, 0)
        c.oblige(f'file header {nm}', b.field(off, code, '>') == want)
    c.cover('header')


class Out:
    """An output file: the bytes written, in order."""

    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(b)
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Elem:
    def __init__(self, name):
        self.name = name

    def encode(self):
        return ('encoding of', self.name)


def body_file(c):
    """to_vgf writes the encodings in the order added, after the file header."""
    from gempakio.encode import vgf as E
    M = models()
    outs = []

    def m_open(interp, args, kw):
        o = Out()
        outs.append((args, kw, o))
        return o
    M.reg(open, m_open)
    it = Interp(M)
    how = c.choose(['add_element', 'from_elements'])
    k = c.choose([0, 1, 2, 3, 5])
    es = [Elem(i) for i in range(k)]
    if k == 5:
        es[3] = es[1]
    if how == 'add_element':
        f = it.call(E.VGFile, ())
        for e in es:
            it.call(it.getattr(f, 'add_element'), (e,))
    else:
        f = it.call(it.getattr(E.VGFile, 'from_elements'), tuple(es))
    it.call(it.getattr(f, 'to_vgf'), ('path',))
    c.oblige('one file opened for writing', len(outs) == 1 and outs[0][0][0] == 'path' and (
        outs[0][0][1:] == ('wb',) or outs[0][1].get('mode') == 'wb'))
    ps = outs[0][2].parts
    c.oblige('header first', len(ps) == k + 1 and len(ps[0]) == 424)
    c.oblige('elements in order', ps[1:] == [('encoding of', e.name) for e in es])
    c.cover('file')


# -------------------------------------------------------------------------------------- C24

CLS = {'Line': 'LineElement', 'SpecialLine': 'SpecialLineElement', 'Front': 'FrontElement',
       'SpecialText': 'SpecialTextElement', 'SpecialSymbol': 'SymbolElement',
       'Marker': 'SymbolElement'}
SAME = {'Line': ['line_type', 'width'],
        'SpecialLine': ['line_type', 'stroke', 'direction', 'width'],
        'Front': ['front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width'],
        'SpecialText': ['text_type', 'turbulence_symbol', 'font', 'text_flag', 'width',
                        'text_color', 'align', 'offset_x', 'offset_y'],
        'SpecialSymbol': ['width', 'symbol_code', 'offset_x', 'offset_y'],
        'Marker': ['width', 'symbol_code', 'offset_x', 'offset_y']}


def within(a, b, tol):
    d = to_real(a) - to_real(b)
    return sand(d <= tol, d >= -tol)


def reader(data, off):
    """A reader positioned at off of data."""
    from gempakio.decode import vgf as D
    from gempakio.tools import IOBuffer
    v = object.__new__(D.VectorGraphicFile)
    b = object.__new__(IOBuffer)
    b._data, b._offset, b._bookmarks = data, off, []
    v._buffer, v._elements, v._groups, v._header, v.prefmt = b, [], [], None, '>'
    return v


def body_round_trip(c, kind, part=None):
    M = models()
    it = Interp(M)
    el, st, geo = element(c, it, kind)
    if part is not None:
        c.assume(st['front_code'] // 100 == part)
    enc = it.call(it.getattr(el, 'encode'))
    st = default_state(kind, st)
    o = SInt.var('offset')
    c.assume(o >= 0)
    data = SBytes([Raw('before', 0, o)] + enc.segs, bytearray)
    v = reader(data, o)
    it.call(it.getattr(v, '_decode_elements'), ())
    c.oblige(f'{kind}.one element', len(v._elements) == 1)
    e = v._elements[0]
    c.oblige(f'{kind}.class', type(e).__name__ == CLS[kind] if not hasattr(e, '_cls') else
             e._cls.__name__ == CLS[kind])
    c.oblige(f'{kind}.consumed', v._buffer._offset == o + enc.length)
    for n in ('filled', 'closed', 'smooth', 'group_type', 'group_number', 'major_color',
              'minor_color'):
        c.oblige(f'{kind}.{n}', val_eq(it.getattr(e, n), st[n]))
    c.oblige(f'{kind}.type', sand(it.getattr(e, 'vg_type') == TYPE[kind][0],
                                  it.getattr(e, 'vg_class') == TYPE[kind][1]))
    for n in SAME[kind]:
        c.oblige(f'{kind}.{n}', val_eq(it.getattr(e, n), st[n]))
    if kind in ('SpecialLine', 'SpecialSymbol', 'Marker'):
        c.oblige(f'{kind}.size', within(it.getattr(e, 'size'), st['size'], SReal(
            z3.RealVal('1/20'))))
    if kind == 'SpecialText':
        c.oblige('text', it.getattr(e, 'text') == geo['text'])
        c.oblige('text size', within(it.getattr(e, 'size'), st['scaled'], SReal(
            z3.RealVal('1/2000'))))
        c.oblige('rotation', within(it.getattr(e, 'rotation'), st['rotation'], SReal(
            z3.RealVal('1/20'))))
        c.oblige('edgecolor', val_eq(it.getattr(e, 'line_color'), st['edgecolor']))
        c.oblige('facecolor', val_eq(it.getattr(e, 'fill_color'), st['facecolor']))
    c2 = SReal(z3.RealVal('1/200'))
    if kind not in LINEAR:
        for a in ('lat', 'lon'):
            c.oblige(f'{kind}.{a}', within(it.getattr(e, a), st[a], c2))
    else:
        n, g = geo['n'], geo['g']
        c.oblige(f'{kind}.number_points', val_eq(it.getattr(e, 'number_points'), n))
        shut = sand(st['closed'] == 1, n > 2) if kind != 'Front' else False
        total = n + 1 if shut else n
        for a in ('lat', 'lon'):
            arr = it.getattr(e, a)
            c.oblige(f'{kind}.{a}.count', arr.shape[0] == total)
            flip = kind == 'SpecialLine' and st['direction'] == -1
            i = total - 1 - g if flip else g
            c.oblige(f'{kind}.{a}.each', within(arr.at(i), geo[a].item(g), c2))
            if shut is not False and (total - n if not is_sym(total) else True):
                if bool(shut):
                    last = 0 if flip else n
                    c.oblige(f'{kind}.{a}.closed', within(arr.at(last), geo[a].item(0), c2))
    for n in ('min_lat', 'min_lon', 'max_lat', 'max_lon'):
        a = geo[n[4:]]
        v_ = it.getattr(e, n)
        if kind not in LINEAR:
            c.oblige(f'{kind}.{n}', within(v_, a, c2))
        else:
            x = a.item(geo['g'])
            c.oblige(f'{kind}.{n} bounds', v_ - c2 <= x if n[:3] == 'min' else v_ + c2 >= x)
    c.cover(kind)


def run(name, body, deadline, timeout=20000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline, max_paths=40000)
    c.state_global = {}
    c.explore(body)
    return c


ENCODE = {'file header': body_header, 'file': body_file, 'text size': body_text_size}
DECODE = {}
for _k in KINDS:
    ENCODE[f'{_k} encode'] = lambda c, k=_k: body_encode(c, k)
    if _k != 'Front':
        DECODE[f'{_k} round trip'] = lambda c, k=_k: body_round_trip(c, k)
for _p in range(10):
    DECODE[f'Front type {_p} round trip'] = lambda c, p=_p: body_round_trip(c, 'Front', p)
for _k in LINEAR:
    ENCODE[f'{_k} sizes'] = lambda c, k=_k: body_sizes(c, k)


if __name__ == '__main__':
    import sys
    import time
    for n, b in {**ENCODE, **DECODE}.items():
        if len(sys.argv) > 1 and sys.argv[1] not in n:
            continue
        t0 = time.time()
        c = run(n, b, None)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s',
              [k for k, v in c.covers.items() if not v], flush=True)
        for o in bad[:6]:
            print('   ', o.name, o.status, str(o.detail)[-900:], o.model)
