"""C28: coordinate helpers and JSON export, for coordinates of any length.

  close    x[0..n-1] followed by x[0], for two lists and for two arrays
  flip     x[n-1-i] at i; flipping twice gives x
  mixed    anything else is refused with TypeError
  encode   NumpyEncoder.default gives, for an array, one number per element within half a
           hundredth of it (and a whole number of hundredths); attribute objects their attributes;
           times their ISO form
  export   to_json hands json.dumps one object per element, in order, which is the element's
           attributes, with that encoder unless the caller chose another
"""
import datetime
import json

import numpy as np
import z3

from contracts.real_decode import zi
from pyvc.core import Ctx, SInt, SReal, mkbool, sand, to_real
from pyvc.filt import register
from pyvc.interp import Interp
from pyvc.models import Models, SFmt, SSeq
from pyvc.nparr import SArr

I = z3.IntSort()
R = z3.RealSort()
X, Y = z3.Function('x', I, R), z3.Function('y', I, R)
HUNDREDTHS = z3.Function('hundredths', R, I, I)


def coords(f, kind, n):
    if kind is list:
        return SSeq(n, lambda i: SReal(f(zi(i))))
    if kind is tuple:
        return SSeq(n, lambda i: SReal(f(zi(i))), tuple)
    return SArr((n,), np.float64, lambda i: SReal(f(zi(i))))


def kind_of(a):
    if isinstance(a, SSeq):
        return a.pytype
    return np.ndarray if isinstance(a, SArr) else type(a)


def at(a, i):
    return a.item(i) if isinstance(a, SSeq) else a.at(i)


def size(a):
    return a.length if isinstance(a, SSeq) else a.shape[0]


def both(c):
    import gempakio.decode.vgf as V
    M = register(Models())
    it = Interp(M)
    n = SInt.var('n')
    c.assume(n >= 1)
    k = SInt.var('k')
    return V.VectorGraphicFile, it, n, k


def close(c):
    F, it, n, k = both(c)
    kind = c.choose([list, np.ndarray])
    x, y = coords(X, kind, n), coords(Y, kind, n)
    r = it.call(F.close_coordinates, (x, y), {})
    c.cover(f'close {kind.__name__}')
    c.assume(sand(k >= 0, k < n))
    for a, f, old in ((r[0], X, x), (r[1], Y, y)):
        c.oblige('same kind', kind_of(a) is kind)
        c.oblige('one more', size(a) == n + 1)
        c.oblige('others kept', at(a, k) == SReal(f(zi(k))))
        c.oblige('closed by the first', at(a, n) == SReal(f(zi(0))))
        c.oblige('given left alone', sand(size(old) == n, at(old, k) == SReal(f(zi(k)))))


def flip(c):
    F, it, n, k = both(c)
    kind = c.choose([list, np.ndarray])
    x, y = coords(X, kind, n), coords(Y, kind, n)
    r = it.call(F.flip_coordinates, (x, y), {})
    c.cover(f'flip {kind.__name__}')
    c.assume(sand(k >= 0, k < n))
    for a, f, old in ((r[0], X, x), (r[1], Y, y)):
        c.oblige('same kind', kind_of(a) is kind)
        c.oblige('same length', size(a) == n)
        c.oblige('reversed', at(a, k) == SReal(f(zi(n - 1 - k))))
        c.oblige('given left alone', sand(size(old) == n, at(old, k) == SReal(f(zi(k)))))
    r2 = it.call(F.flip_coordinates, r, {})
    for a, f in ((r2[0], X), (r2[1], Y)):
        c.oblige('restored', sand(size(a) == n, at(a, k) == SReal(f(zi(k)))))


def mixed(c):
    F, it, n, k = both(c)
    ks = [list, np.ndarray, tuple]
    a, b = c.choose(ks), c.choose(ks)
    fn = c.choose(['close_coordinates', 'flip_coordinates'])
    try:
        it.call(getattr(F, fn), (coords(X, a, n), coords(Y, b, n)), {})
    except TypeError:
        c.cover('refused')
        c.oblige('refused', a is not b or a is tuple)
        return
    c.oblige('accepted', a is b and a is not tuple)


def text_number(interp, args, kw):
    """float(text of x with d decimals): the nearest multiple of 10**-d (either one at a tie)."""
    from pyvc.core import ctx
    x = args[0]
    if not isinstance(x, SFmt):
        return NotImplemented
    parts = [p for p in x.parts if not (isinstance(p, str) and not p)]
    if len(parts) != 1 or not hasattr(parts[0], 'spec'):
        return NotImplemented
    v, spec = to_real(parts[0].v), parts[0].spec
    if not spec.endswith('f') or '.' not in spec:
        return NotImplemented
    d = int(spec[:-1].split('.')[1])
    q = to_real(SInt.of(HUNDREDTHS(v.t, z3.IntVal(d))))
    ctx().assume(sand(q * 2 <= v * (2 * 10**d) + 1, q * 2 >= v * (2 * 10**d) - 1))
    return q / 10**d


def encode(c):
    import gempakio.decode.vgf as V
    M = register(Models())
    it = Interp(M)
    M.reg(float, text_number)
    n, k = SInt.var('n'), SInt.var('k')
    c.assume(sand(k >= 0, k < n))
    enc = object.__new__(V.NumpyEncoder)
    r = it.call(it.getattr(enc, 'default'), (coords(X, np.ndarray, n),), {})
    c.cover('array')
    c.oblige('a list', kind_of(r) is list)
    c.oblige('one number per element', size(r) == n)
    v, w = at(r, k), SReal(X(zi(k)))
    c.oblige('to hundredths', sand(v - w <= SReal(z3.RealVal('1/200')),
                                   w - v <= SReal(z3.RealVal('1/200'))))


class Thing:
    pass


def others(c):
    import gempakio.decode.vgf as V
    it = Interp(register(Models()))
    enc = object.__new__(V.NumpyEncoder)
    kind = c.choose(['attribute', 'time', 'other'])
    if kind == 'attribute':
        a = c.choose(sorted((x for x in vars(V).values() if isinstance(x, type) and issubclass(
            x, V.VectorGraphicAttribute)), key=lambda x: x.__name__))
        o = object.__new__(a)
        o.p, o.q = SReal.var('p'), SInt.var('q')
        r = it.call(it.getattr(enc, 'default'), (o,), {})
        c.cover('attribute')
        c.oblige('attributes', dict(r) == {'p': o.p, 'q': o.q})
    elif kind == 'time':
        t = datetime.datetime(2021, 5, 7, 13, 45)
        r = it.call(it.getattr(enc, 'default'), (t,), {})
        c.oblige('time', r == t.isoformat())
    else:
        try:
            it.call(it.getattr(enc, 'default'), (Thing(),), {})
        except TypeError:
            c.cover('unknown refused')
            c.oblige('refused', True)
            return
        c.oblige('refused', False)


def export(c):
    import gempakio.decode.vgf as V
    M = register(Models())
    it = Interp(M)
    n, k = SInt.var('n'), SInt.var('k')
    c.assume(sand(n >= 0, k >= 0, k < n))
    cache = {}

    def item(i):
        from pyvc.filt import ikey
        if ikey(i) not in cache:
            cache[ikey(i)] = e = Thing()
            e.lat, e.number = SReal(X(zi(i))), i
        return cache[ikey(i)]
    me = V.VectorGraphicFile.__new__(V.VectorGraphicFile)
    me._elements = SSeq(n, item)
    out = []
    M.reg(json.dumps, lambda it, a, kw: out.append((a, kw)) or 'text')
    kw = c.choose([{}, {'indent': 2}, {'cls': json.JSONEncoder}])
    r = it.call(it.getattr(me, 'to_json'), (), dict(kw))
    c.cover('exported')
    c.oblige('the text', r == 'text' and len(out) == 1)
    (data, *rest), kws = out[0]
    c.oblige('arguments', not rest and kws == {'cls': V.NumpyEncoder, **kw})
    c.oblige('one object per element', sand(kind_of(data) is list, size(data) == n))
    o = at(data, k)
    c.oblige('its attributes', isinstance(o, dict) and set(o) == {'lat', 'number'} and
             o['lat'] is item(k).lat and o['number'] is k)


PARTS = {'close_coordinates': close, 'flip_coordinates': flip, 'mixed types': mixed,
         'NumpyEncoder arrays': encode, 'NumpyEncoder others': others, 'to_json': export}


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}
    c.explore(PARTS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in PARTS:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.values()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
