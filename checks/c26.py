"""C26: vector graphic attributes only ever hold documented values."""
import numpy as np

from contracts import vgf_setters as proved
from vp import vgfgen as G
from vp.api import Fail, Task, limit

E = 'gempakio.encode.vgf.'
FUNCTIONS = [E + f'{c}.{n}' for c, ns in {
    'Element': 'closed filled smooth group_type group_number major_color minor_color',
    'LineBase': '__init__ width', 'TextBase': '__init__ text_color size font width align '
    'rotation offset_x offset_y text_flag', 'Line': '__init__ line_type',
    'Front': '__init__ width front_code pip_size pip_stroke pip_direction flip',
    'SpecialLine': '__init__ line_type direction size flip',
    'SpecialText': '__init__ text_type edgecolor facecolor turbulence_symbol',
    'SymbolBase': '__init__ width size symbol_code offset_x offset_y',
    'SpecialSymbol': '__init__ _validate_symbol_code', 'Marker': '__init__ '
    '_validate_symbol_code'}.items() for n in ns.split()]
TRUSTED = ['text formatting of an integer with padding, and int() of digits']
ASSUMPTIONS = ['reals are mathematical (no NaN, no infinity); values that are no numbers are '
               'represented by a text and None',
               'the attribute values are arbitrary, the coordinates of the element are fixed '
               '(no setter reads them); lengths of coordinates and text: see C23']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: proved.run(n, b, dl), functions=FUNCTIONS)
            for n, b in proved.BODIES.items()]


MONITOR_SECONDS = 12
MONITORS = ['settings', 'constructors']

UNCHECKED = {'rotation', 'offset_x', 'offset_y'}


def bad_values(rng, kind, name, st):
    """Values outside the documented range of an attribute."""
    dom = G.DOMAIN[kind][name]
    lo, hi = min(dom), max(dom)
    if name in UNCHECKED or (kind == 'SpecialText' and name == 'width'):
        return []
    if kind == 'Front' and name in ('width', 'front_code'):
        return [lo - 1, hi + 1, hi + 50, -1000, 'x', None, 3.0, 7.0, 2.5]
    if name in ('group_type', 'group_number'):
        return [-1, -100, 'x', None]
    if name == 'pip_stroke':
        return [0, -1, -7, 'x', None]
    if name == 'size' and kind != 'SpecialText':
        return [0, .09, -1, 10.01, 11, 100, 'x', None]
    if name == 'font':
        return [0, 4, 14, 24, 34, -1, 'x', None, 10, 20, 30] if st['text_flag'] == 2 else []
    out = [lo - 1, hi + 1, hi + 50, lo - 1000, 'x', None]
    out += [v for v in range(int(lo), int(hi)) if v not in dom][:5]
    if name == 'turbulence_symbol' and st.get('text_type') in (7, 9):
        out += [9, 10]
    return out


def snap(el):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else v)
            for k, v in sorted(vars(el).items()) if k != '_pts_struct'}


def state(m, what):
    for k, v in m.st.items():
        if k in ('lat', 'lon', 'stroke', 'text'):
            continue
        got = getattr(m.el, k)
        if got != v:
            raise Fail(f'after {what}, {m.kind}.{k} reads {got!r}, expected {v!r}', m.case())
    if m.kind == 'Front' and m.el.width != m.el.front_code // 10 % 10:
        raise Fail(f'front width {m.el.width} and code {m.el.front_code} disagree', m.case())


def settings(rng, log):
    while log.more():
        try:
            m = G.make(rng, hi_points=6)
        except Exception as e:  # noqa: BLE001
            raise Fail(f'constructing with documented values raised {type(e).__name__}: {e}',
                       None) from None
        state(m, 'construction')
        n = 0
        for _ in range(rng.choice([5, 15, 40])):
            name = rng.choice(list(G.DOMAIN[m.kind]))
            bad = bad_values(rng, m.kind, name, m.st)
            if bad and rng.random() < .5:
                v = rng.choice(bad)
                before = snap(m.el)
                try:
                    with limit(5, 'setter', m.case()):
                        setattr(m.el, name, v)
                except Fail:
                    raise
                except Exception:  # noqa: BLE001
                    if snap(m.el) != before:
                        raise Fail(f'{m.kind}.{name} = {v!r} was refused but changed the '
                                   'element', m.case()) from None
                else:
                    raise Fail(f'{m.kind}.{name} = {v!r} was accepted', m.case())
                n += 1
            elif rng.random() < .2 and m.kind in ('Front', 'SpecialLine'):
                before = snap(m.el)
                m.flip()
                state(m, 'flip()')
                m.flip()
                if snap(m.el) != before:
                    raise Fail(f'flipping a {m.kind} twice does not restore it', m.case())
            else:
                try:
                    m.random_change(rng)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'{m.kind}: {m.history[-1]} raised {type(e).__name__}: {e}',
                               m.case()) from None
                state(m, m.history[-1])
        log.case((m.kind, tuple(m.history)), True, m.case())


def constructors(rng, log):
    from gempakio.encode import vgf as E
    while log.more():
        kind = rng.choice(list(G.DOMAIN))
        m = G.make(rng, kind, hi_points=6)
        n = 3
        lin = kind in G.LINEAR
        kw = {a: m.st[a] for a in G.CTOR[kind]}
        col = 'major_color' if kind == 'Front' else 'text_color' if kind == 'SpecialText' \
            else 'color'
        kw[col] = m.st['major_color']
        if kind == 'SpecialLine':
            kw['stroke'] = 50
        if kind == 'SpecialText':
            kw['text'] = 'abc'
        if kind in ('SpecialSymbol', 'Marker'):
            kw['symbol_code'] = m.st['symbol_code']
        lon = [1., 2., 3.] if lin else 1.
        lat = [4., 5., 6.] if lin else 2.
        what = rng.choice(['points'] * lin + ['text'] * (kind == 'SpecialText') +
                          ['stroke'] * (kind == 'SpecialLine') + list(kw))
        if what == 'points':
            la, lo = rng.choice([(n, n - 1), (1, 1), (0, 0), (501, 501), (n, n + 1), (600, 600)])
            lat, lon = [1.] * la, [2.] * lo
            v = (la, lo)
        elif what == 'text':
            v = kw['text'] = rng.choice(['x' * 255, 'x' * 300, None, 5, 'é' * 128, b'abc'])
        elif what == 'stroke':
            kw['line_type'] = rng.choice([24, 25])
            v = kw['stroke'] = rng.choice([24, 76, 0, -1, 1000, None])
        else:
            dom = 'major_color' if what == col else what
            if kind == 'SpecialText' and what == 'turbulence_symbol':
                dom = what
            bad = bad_values(rng, kind, dom, m.st)
            bad = [b for b in bad if not (b is None and what in
                                          ('minor_color', 'edgecolor', 'facecolor'))]
            if not bad:
                continue
            v = kw[what] = rng.choice(bad)
        case = {'kind': kind, 'kwargs': {k: repr(a)[:60] for k, a in kw.items()}, 'bad': what,
                'value': repr(v)[:60]}
        try:
            with limit(5, 'constructor', case):
                getattr(E, kind)(lon, lat, **kw)
        except Fail:
            raise
        except Exception:  # noqa: BLE001
            log.case((kind, what, repr(v), rng.random()), True, case)
            continue
        raise Fail(f'{kind} accepted {what}={v!r:.80}', case)
