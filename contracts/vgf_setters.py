"""C26: attributes of vector graphic elements.

The contract of every settable attribute of every element class, from an arbitrary state the
constructor and the setters can reach, for every integer and every real value:
    requires  nothing
    ensures   value documented  -> stored, read back unchanged, and only the documented coupled
                                   attribute changes with it
              otherwise         -> ValueError or TypeError and no attribute changes
and of the constructors: documented arguments are accepted and read back, others are refused.
"""
from pyvc.core import Ctx, ite, SInt, SReal, mknot, sand, simplies, sor, val_eq, is_sym
from pyvc.interp import Interp
from pyvc.models import Models
from pyvc import texts

KINDS = ['Line', 'SpecialLine', 'Front', 'SpecialText', 'SpecialSymbol', 'Marker']


def whole(v):
    import z3
    from pyvc.core import mkbool
    return True if isinstance(v, SInt) or not is_sym(v) else mkbool(
        z3.ToReal(z3.ToInt(v.t)) == v.t)


def rng(lo, hi):
    return lambda v, st: sand(whole(v), v >= lo, v <= hi)


def span(lo, hi):
    return lambda v, st: sand(v >= lo, v <= hi)


def oneof(*xs):
    return lambda v, st: sor(*[v == x for x in xs])


def least(lo, strict=False):
    return lambda v, st: v > lo if strict else v >= lo


def anything(v, st):
    return True


FONTS = [a + b for b in (0, 10, 20, 30) for a in (1, 2, 3)]
BASE = {'closed': oneof(0, 1), 'filled': rng(0, 8), 'smooth': rng(0, 2),
        'group_type': least(0), 'group_number': least(0), 'major_color': rng(0, 32),
        'minor_color': rng(0, 32)}
SYM = dict(BASE, width=span(1, 10), size=span(.1, 10),
           offset_x=anything, offset_y=anything)
DOMAIN = {
    'Line': dict(BASE, width=span(1, 10), line_type=span(0, 99)),
    'SpecialLine': dict(BASE, width=span(1, 10), line_type=rng(1, 26), direction=oneof(1, -1),
                        size=span(.1, 10)),
    'Front': dict(BASE, width=rng(1, 8), front_code=rng(0, 999), pip_size=rng(40, 500),
                  pip_stroke=least(0, True), pip_direction=oneof(1, -1)),
    'SpecialText': dict(
        BASE, text_color=rng(0, 32), size=oneof(10, 12, 14, 18, 24, 34),
        font=lambda v, st: sor(mknot(st['text_flag'] == 2), oneof(*FONTS)(v, st)),
        align=oneof(-1, 0, 1), text_flag=oneof(1, 2), text_type=rng(0, 16),
        edgecolor=rng(0, 32), facecolor=rng(0, 32),
        turbulence_symbol=lambda v, st: sand(
            rng(0, 10)(v, st), simplies(sor(st['text_type'] == 7, st['text_type'] == 9), v <= 8)),
        rotation=anything, offset_x=anything, offset_y=anything, width=anything),
    'SpecialSymbol': dict(SYM, symbol_code=rng(0, 41)),
    'Marker': dict(SYM, symbol_code=rng(0, 24)),
}
CTOR = {
    'Line': ['line_type', 'closed', 'filled', 'smooth', 'width'],
    'SpecialLine': ['line_type', 'closed', 'filled', 'width', 'smooth', 'size', 'direction'],
    'Front': ['front_code', 'minor_color', 'smooth', 'pip_size', 'pip_stroke', 'pip_direction'],
    'SpecialText': ['size', 'text_type', 'font', 'align', 'edgecolor', 'facecolor', 'rotation',
                    'offset_x', 'offset_y', 'turbulence_symbol'],
    'SpecialSymbol': ['symbol_code', 'width', 'size', 'offset_x', 'offset_y'],
    'Marker': ['symbol_code', 'width', 'size', 'offset_x', 'offset_y'],
}
REAL = {'size', 'rotation'}
LINEAR = ('Line', 'SpecialLine', 'Front')


def color_arg(kind):
    return {'Front': 'major_color', 'SpecialText': 'text_color'}.get(kind, 'color')


def interp():
    return Interp(texts.register(Models()))


def sym(c, name, kind=None):
    if name in REAL and not (name == 'size' and kind == 'SpecialText'):
        return SReal.var(c.fresh_name(name))
    return SInt.var(c.fresh_name(name))


def arguments(c, kind, st):
    """Documented values of every constructor argument."""
    kw = {}
    for a in CTOR[kind]:
        kw[a] = st[a] = sym(c, a, kind)
    col = SInt.var(c.fresh_name('color'))
    kw[color_arg(kind)] = col
    st['major_color'] = col
    if kind != 'Front':
        st['minor_color'] = col
    if kind == 'SpecialText':
        st['text_color'] = col
        st['text_flag'] = 2
        st['width'] = 1
        kw['text'] = 'abc'
    for n, v in st.items():
        c.assume(DOMAIN[kind][n](v, st))
    return kw


def points(kind):
    return ([1., 2., 3.], [4., 5., 6.]) if kind in LINEAR else (1.5, 2.5)


def build(c, it, kind, pts=None, **more):
    """An element in an arbitrary state, and its public state."""
    from gempakio.encode import vgf as E
    st = {}
    kw = arguments(c, kind, st)
    if kind == 'SpecialLine':
        kw['stroke'] = SInt.var(c.fresh_name('stroke'))
        c.assume(sand(kw['stroke'] >= 25, kw['stroke'] <= 75))
    lon, lat = pts or points(kind)
    kw.update(more)
    el = it.call(getattr(E, kind), (lon, lat), kw)
    if kind == 'SpecialLine':
        st['stroke'] = ite(sor(st['line_type'] == 24, st['line_type'] == 25), kw['stroke'], 1)
    for n in DOMAIN[kind]:
        if n not in CTOR[kind] and n not in ('width', 'text_color') or (
                n == 'width' and kind == 'SpecialText'):
            v = sym(c, n, kind)
            st[n] = v
            if n == 'text_flag':
                continue
            c.assume(DOMAIN[kind][n](v, st))
            it.setattr(el, n, v)
    if kind == 'SpecialText':
        c.assume(DOMAIN[kind]['text_flag'](st['text_flag'], st))
        it.setattr(el, 'text_flag', st['text_flag'])
        f = SInt.var(c.fresh_name('font'))
        c.assume(DOMAIN[kind]['font'](f, st))
        st['font'] = f
        it.setattr(el, 'font', f)
    if kind == 'Front':
        st['width'] = st['front_code'] // 10 % 10
    return el, st


def snapshot(el):
    return {k: v for k, v in vars(el).items()
            if not hasattr(v, '__array__') and k != '_pts_struct'}


def same_state(a, b):
    return sand(*[val_eq(a[k], b[k]) for k in a], set(a) == set(b))


def read(it, el, n):
    return it.getattr(el, n)


def check_state(c, it, el, kind, st, tag):
    for n in DOMAIN[kind]:
        if n in st:
            c.oblige(f'{tag}.{n}', val_eq(read(it, el, n), st[n]))


def assign(c, it, el, name, v):
    try:
        it.setattr(el, name, v)
    except (ValueError, TypeError):
        return False
    return True


def body_set(c, kind):
    it = interp()
    name, typ = c.choose([(n, t) for n in DOMAIN[kind] for t in (
        ('int', 'real') if n != 'symbol_code' else ('int',))])
    el, st = build(c, it, kind)
    v = (SInt if typ == 'int' else SReal).var('value')
    doc = DOMAIN[kind][name](v, st)
    if typ == 'real' and kind == 'Front' and name in ('front_code', 'width'):
        doc = False     # codes and their digits are integers
    before = snapshot(el)
    ok = assign(c, it, el, name, v)
    if not ok:
        c.oblige(f'{kind}.{name}.documented value accepted', mknot(doc))
        c.oblige(f'{kind}.{name}.refused unchanged', same_state(before, snapshot(el)))
        return
    c.oblige(f'{kind}.{name}.only documented values', doc)
    st = dict(st, **{name: v})
    if kind == 'Front':
        if name == 'front_code':
            st['width'] = v // 10 % 10
        if name == 'width':
            st['front_code'] = st['front_code'] // 100 * 100 + v * 10 + st['front_code'] % 10
            c.oblige('Front.code in range', sand(st['front_code'] >= 0,
                                                 st['front_code'] <= 999))
    if name == 'text_type':
        st['turbulence_symbol'] = 0
    check_state(c, it, el, kind, st, f'{kind}.{name}.kept')
    c.cover(f'{kind}.{name}')


def body_other(c, kind):
    """Values that are not numbers."""
    it = interp()
    name, v = c.choose([(n, v) for n in DOMAIN[kind] for v in ('x', None)
                        if DOMAIN[kind][n] is not anything and n != 'font'])
    el, st = build(c, it, kind)
    before = snapshot(el)
    ok = assign(c, it, el, name, v)
    c.oblige(f'{kind}.{name} = {v!r} refused', not ok)
    c.oblige(f'{kind}.{name} = {v!r} unchanged', same_state(before, snapshot(el)))
    c.cover(f'{kind}.{name}.{v!r}')


def body_flip(c, kind):
    it = interp()
    el, st = build(c, it, kind)
    a = 'direction' if kind == 'SpecialLine' else 'pip_direction'
    before = snapshot(el)
    it.call(it.getattr(el, 'flip'))
    st2 = dict(st, **{a: -st[a]})
    check_state(c, it, el, kind, st2, f'{kind}.flip')
    it.call(it.getattr(el, 'flip'))
    c.oblige(f'{kind}.flip twice', same_state(before, snapshot(el)))
    c.cover('flip')


def body_ctor(c, kind):
    """Constructor: one argument of any value, the others documented."""
    from gempakio.encode import vgf as E
    it = interp()
    args = [*CTOR[kind], color_arg(kind)]
    if kind == 'SpecialLine':
        args.append('stroke')
    what = c.choose(args)
    st = {}
    kw = arguments(c, kind, st)
    if kind == 'SpecialLine':
        kw['stroke'] = SInt.var('stroke')
        c.assume(sand(kw['stroke'] >= 25, kw['stroke'] <= 75))
    v = sym(c, what + '.any', kind)
    kw[what] = v
    if what in st:
        st[what] = v
    if what == color_arg(kind):
        for n in ('major_color', 'minor_color', 'text_color'):
            if n in st and (n != 'minor_color' or kind != 'Front'):
                st[n] = v
    if what == 'stroke':
        doc = sor(mknot(sor(st['line_type'] == 24, st['line_type'] == 25)),
                  sand(v >= 25, v <= 75))
    else:
        nm = 'major_color' if what == color_arg(kind) else what
        doc = DOMAIN[kind][nm](v, st)
        if what == 'text_type':
            doc = sand(doc, DOMAIN[kind]['turbulence_symbol'](kw['turbulence_symbol'], st))
    lon, lat = points(kind)
    try:
        el = it.call(getattr(E, kind), (lon, lat), kw)
    except (ValueError, TypeError):
        c.oblige(f'{kind}({what}) documented value accepted', mknot(doc))
        return
    c.oblige(f'{kind}({what}) only documented values', doc)
    if kind == 'Front':
        st['width'] = st['front_code'] // 10 % 10
    check_state(c, it, el, kind, st, f'{kind}({what})')
    c.cover(f'{kind}.{what}')


def body_optional(c, kind):
    """Arguments left out take their documented defaults."""
    from gempakio.encode import vgf as E
    it = interp()
    st = {}
    kw = arguments(c, kind, st)
    default = {'Line': dict(filled=0, smooth=0, width=2),
               'SpecialLine': dict(filled=0, width=2, smooth=0, size=1, direction=1),
               'Front': dict(minor_color=st['major_color'], smooth=2, pip_size=100,
                             pip_stroke=1, pip_direction=1),
               'SpecialText': dict(size=12, text_type=0, font=22, align=0,
                                   edgecolor=st['major_color'], facecolor=st['major_color'],
                                   rotation=0, offset_x=0, offset_y=0, turbulence_symbol=0),
               'SpecialSymbol': dict(width=1, size=1, offset_x=0, offset_y=0)}
    default['Marker'] = default['SpecialSymbol']
    for n, d in default[kind].items():
        if n == 'text_type':
            kw.pop('turbulence_symbol', None)
            st['turbulence_symbol'] = 0
        kw.pop(n, None)
        st[n] = d
    if kind == 'SpecialLine':
        c.assume(mknot(sor(st['line_type'] == 24, st['line_type'] == 25)))
    if kind == 'SpecialText':
        kw.pop('turbulence_symbol', None)
    lon, lat = points(kind)
    el = it.call(getattr(E, kind), (lon, lat), kw)
    if kind == 'Front':
        st['width'] = st['front_code'] // 10 % 10
    check_state(c, it, el, kind, st, f'{kind}.default')
    c.cover('default')


def run(name, body, deadline, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline, max_paths=20000)
    c.state_global = {}
    c.explore(body)
    return c


BODIES = {}
for _k in KINDS:
    BODIES[f'{_k} setters'] = lambda c, k=_k: body_set(c, k)
    BODIES[f'{_k} other values'] = lambda c, k=_k: body_other(c, k)
    BODIES[f'{_k} constructor'] = lambda c, k=_k: body_ctor(c, k)
    BODIES[f'{_k} defaults'] = lambda c, k=_k: body_optional(c, k)
for _k in ('Front', 'SpecialLine'):
    BODIES[f'{_k} flip'] = lambda c, k=_k: body_flip(c, k)


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and sys.argv[1] not in n:
            continue
        t0 = time.time()
        c = run(n, b, None)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t0:.1f}s',
              [k for k, v in c.covers.items() if not v])
        for o in bad[:6]:
            print('   ', o.name, o.status, str(o.detail)[-700:], o.model)
