"""C18 / C19: thermodynamic formulas and parameter interpolation over the reals.

exp and log are uninterpreted functions with exp > 0 and log strictly increasing, log 1 = 0.
Each function is checked against its formula; callees are replaced by their contracts.
"""
import z3

from pyvc.core import (Ctx, SInt, SReal, is_sym, ite, mkbool, mknot, mkreal, sand, simplies, sor,
                       to_real, val_eq)
from pyvc.interp import Interp
from pyvc.models import Models, ufelem

MOD = 'gempakio.gemcalc.'


def exp(x):
    return ufelem('exp', x)


def log(x):
    return ufelem('log', x)


def near(c, name, got, want):
    """got equals the formula (exactly, or to 1e-12 where constants were regrouped)."""
    g, w = to_real(got), to_real(want)
    if g is None:
        c.oblige(name, False, detail=f'not a number: {got!r}')
        return
    eq = g == w
    if eq is True or (eq is not False and c.check(z3.Not(eq.t)) == z3.unsat):
        c.oblige(name, eq)
        return
    d = g - w
    tol = (abs(w) + 1) * 1e-12
    c.oblige(name, sand(d <= tol, -d <= tol))


def V(td):
    return 6.112 * exp(17.67 * td / (td + 243.5))


def E(td, p):
    return (1.001 + ((p - 100.0) / 900.0) * 0.0034) * V(td)


# contracts used at call sites -----------------------------------------------------------


def k_vapr(it, f, a, kw):
    b = bindargs(f, a, kw)
    return vapr_spec(b['dwpc'], b['missing'])


def bindargs(f, a, kw):
    names = [x.arg for x in f.node.args.args]
    d = dict(zip(names, a))
    d.update(kw)
    nd = f.defaults
    for n, v in zip(names[len(names) - len(nd):], nd):
        d.setdefault(n, v)
    return d


def vapr_spec(td, m):
    if td == m:
        return m
    return V(td)


def mixr_value(c, td, p, m):
    """Contract of mixing_ratio: (is missing, value)."""
    e = E(td, p)
    miss = sor(td == m, p == m, e > 0.5 * p)
    return miss, e


def k_mixr(it, f, a, kw):
    from pyvc.core import ctx
    c = ctx()
    b = bindargs(f, a, kw)
    td, p, m = b['dwpc'], b['pres'], b['missing']
    r = mixr_spec(td, p, m)
    if not (r is m):
        c.assume(r > 0)     # postcondition, proved below
    return r


def mixr_spec(td, p, m):
    if sor(td == m, p == m):
        return m
    e = E(td, p)
    if e > 0.5 * p:
        return m
    return 0.62197 * (e / (p - e)) * 1000.0


def k_tvrk(it, f, a, kw):
    b = bindargs(f, a, kw)
    return tv_uf(b['tmpc'], b['dwpc'], b['pres'], b['missing'])


def tv_uf(t, td, p, m):
    """Virtual temperature as an uninterpreted function (its contract is proved apart)."""
    if sor(t == m, p == m):
        return m
    f = z3.Function('TV', *[z3.RealSort()] * 5)
    from pyvc.core import ctx
    r = SReal(f(*[to_real(x).t for x in (t, td, p, m)]))
    ctx().assume(mknot(r == m))
    return r


def run(name, body, deadline=None, timeout=15000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return [c]


def maybe(c, name, m):
    """An input that is missing or any real."""
    v = SReal.var(name)
    return v


def args(c, names):
    m = SReal.var('missing')
    c.inputs['missing'] = m.t
    out = []
    for n in names:
        v = SReal.var(n)
        c.inputs[n] = v.t
        out.append(v)
        if n.startswith('td'):
            c.assume(sor(v == m, v > -243.5))
        if n.startswith('p'):
            c.assume(sor(v == m, v > -200000))
    return out, m


def interp(without=()):
    ks = {MOD + 'vapor_pressure': k_vapr, MOD + 'mixing_ratio': k_mixr,
          MOD + 'virtual_temperature': k_tvrk}
    return Interp(Models(), contracts={k: v for k, v in ks.items()
                                       if k.removeprefix(MOD) not in without})


def body_vapr(c):
    import gempakio.gemcalc as G
    (td,), m = args(c, ['td'])
    r = interp(('vapor_pressure',)).call(G.vapor_pressure, (td, m))
    if td == m:
        c.cover('missing')
        c.oblige('missing', val_eq(r, m))
    else:
        c.cover('formula')
        near(c, 'formula', r, V(td))


def body_mixr(c):
    import gempakio.gemcalc as G
    (td, p), m = args(c, ['td', 'p'])
    if mknot(td == m):
        c.assume(mknot(V(td) == m))     # the flag is no possible value
    r = interp(('mixing_ratio',)).call(G.mixing_ratio, (td, p, m))
    if sor(td == m, p == m):
        c.cover('missing')
        c.oblige('missing', val_eq(r, m))
        return
    e = E(td, p)
    if e > 0.5 * p:
        c.cover('non-physical')
        c.oblige('non_physical', val_eq(r, m))
        return
    c.cover('formula')
    near(c, 'formula', r, 0.62197 * (e / (p - e)) * 1000.0)
    c.oblige('positive', to_real(r) > 0)


def body_tv(c):
    import gempakio.gemcalc as G
    (t, td, p), m = args(c, ['t', 'td', 'p'])
    rs = None
    if mknot(sor(td == m, p == m)):
        e = E(td, p)
        if e <= 0.5 * p:
            rs = 0.62197 * (e / (p - e)) * 1000.0
            c.assume(mknot(rs == m))
            c.assume(rs > 0)     # mixing_ratio's postcondition
    r = interp(('virtual_temperature',)).call(G.virtual_temperature, (t, td, p, m))
    if sor(t == m, p == m):
        c.cover('missing')
        c.oblige('missing', val_eq(r, m))
        return
    if rs is None:
        c.cover('no moisture')
        near(c, 'no_moisture', r, t + 273.15)
        return
    c.cover('formula')
    # name the mixing ratio so that the remaining goals are small
    near(c, 'formula', r, (t + 273.15) * (1.0 + 0.001 * rs / 0.62197) / (1.0 + 0.001 * rs))


def body_tv_lemma(c):
    """Physical lemma: moisture never lowers the virtual temperature."""
    t, r = SReal.var('t'), SReal.var('r')
    c.assume(sand(r > 0, t + 273.15 >= 0))
    c.cover('lemma')
    c.oblige('not_below', (t + 273.15) * (1.0 + 0.001 * r / 0.62197) / (1.0 + 0.001 * r)
             >= t + 273.15)


def body_sclh(c):
    import gempakio.gemcalc as G
    (tb, tt, tdb, tdt, pb, pt), m = args(c, ['t1', 't2', 'td1', 'td2', 'p1', 'p2'])
    r = interp(('scale_height',)).call(G.scale_height, (tb, tt, tdb, tdt, pb, pt, m))
    if sor(tb == m, tt == m, pb == m, pt == m):
        c.cover('missing')
        c.oblige('missing', val_eq(r, m))
        return
    c.cover('formula')
    near(c, 'formula', r, (287.04 / 9.80616) * ((tv_uf(tb, tdb, pb, m) + tv_uf(
        tt, tdt, pt, m)) * 0.5))


def body_mhgt(c):
    import gempakio.gemcalc as G
    (z, pb, pt, s), m = args(c, ['z', 'p1', 'p2', 's'])
    r = interp().call(G.moist_hydrostatic_height, (z, pb, pt, s, m))
    if sor(z == m, pb == m, pt == m, s == m, pb <= 0, pt <= 0):
        c.cover('missing')
        c.oblige('missing', val_eq(r, m))
        return
    c.cover('formula')
    near(c, 'formula', r, z + s * log(pb / pt))
    if sand(s > 0, pt < pb):
        c.cover('upward')
        c.oblige('height_increases', to_real(r) > z)


def body_defaults(c):
    """The missing flag defaults to -9999 in every function."""
    import gempakio.gemcalc as G
    it = interp(('vapor_pressure', 'mixing_ratio', 'virtual_temperature'))
    fn, k = c.choose([('vapor_pressure', 1), ('mixing_ratio', 2), ('virtual_temperature', 3),
                      ('scale_height', 6), ('moist_hydrostatic_height', 4)])
    r = it.call(getattr(G, fn), (-9999.0,) * k)
    c.oblige(f'{fn}.default_flag', r == -9999)
    c.cover(fn)


# C19 --------------------------------------------------------------------------------------
PARAMS = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']


def body_interp(c, names=tuple(PARAMS)):
    import gempakio.gemcalc as G
    m, v = SReal.var('missing'), SReal.var('vlev')
    a = {n: SReal.var(f'a.{n}') for n in names}
    b = {n: SReal.var(f'b.{n}') for n in names}
    c.inputs = {'missing': m.t, 'vlev': v.t, **{f'a.{n}': x.t for n, x in a.items()},
                **{f'b.{n}': x.t for n, x in b.items()}}
    p1, p2 = a['PRES'], b['PRES']
    ok = sand(sor(sand(p1 < v, v < p2), sand(p2 < v, v < p1)), p1 > 0, p2 > 0)
    a0, b0 = dict(a), dict(b)
    it = Interp(Models())
    try:
        out = it.call(G.interp_parameters, (v, a, b, m))
    except ValueError:
        c.cover('refused')
        c.oblige('refused_only_outside', mknot(ok))
        return
    c.cover('accepted')
    c.oblige('accepted_only_between', ok)
    c.oblige('parameters', set(out) == set(names))
    c.oblige('pressure', val_eq(out['PRES'], v))
    c.oblige('levels_kept', sand(*[x is a0[n] for n, x in a.items()],
                                 *[x is b0[n] for n, x in b.items()], len(a) == len(names)))
    w = log(v / p1) / log(p2 / p1)
    l1, l2 = log(v / p1), log(p2 / p1)
    # 0 < weight < 1: v lies between, and the logarithm is increasing
    c.oblige('weight.signs', sor(sand(l1 > 0, l2 > l1), sand(l1 < 0, l2 < l1)))
    wt = SReal.var('weight')
    c.assume(wt == w)
    c.oblige('weight.range', sand(wt > 0, wt < 1))
    c.assume(sand(wt > 0, wt < 1))
    for n in names:
        if n == 'PRES':
            continue
        x, y, r = a[n], b[n], out[n]
        miss = sor(x == m, y == m)
        if miss:
            c.oblige(f'{n}.missing', val_eq(r, m))
            return body_rest(c)
        if n != 'DRCT':
            c.oblige(f'{n}.log_linear', val_eq(r, x + (y - x) * w))


def body_rest(c):
    """(one missing parameter per path is enough: the parameters are independent)"""


def body_one(param):
    """One parameter besides the pressure: full contract."""
    def body(c):
        import gempakio.gemcalc as G
        m, v = SReal.var('missing'), SReal.var('vlev')
        p1, p2, x, y = (SReal.var(n) for n in ('p1', 'p2', 'x', 'y'))
        c.inputs = {'missing': m.t, 'vlev': v.t, 'p1': p1.t, 'p2': p2.t, 'x': x.t, 'y': y.t}
        ok = sand(sor(sand(p1 < v, v < p2), sand(p2 < v, v < p1)), p1 > 0, p2 > 0)
        order = c.choose([True, False])
        a = {'PRES': p1, param: x} if order else {param: x, 'PRES': p1}
        b = {'PRES': p2, param: y}
        it = Interp(Models())
        try:
            out = it.call(G.interp_parameters, (v, a, b, m))
        except ValueError:
            c.cover('refused')
            c.oblige('refused_only_outside', mknot(ok))
            return
        c.cover('accepted')
        c.oblige('accepted_only_between', ok)
        c.oblige('parameters', set(out) == {'PRES', param})
        c.oblige('pressure', val_eq(out['PRES'], v))
        c.oblige('levels_kept', sand(set(a) == {'PRES', param}, a['PRES'] is p1, a[param] is x,
                                     set(b) == {'PRES', param}, b['PRES'] is p2,
                                     b[param] is y))
        r = out[param]
        if sor(x == m, y == m):
            c.cover('missing')
            c.oblige('missing', val_eq(r, m))
            return
        l1, l2 = log(v / p1), log(p2 / p1)
        c.oblige('weight.signs', sor(sand(l1 > 0, l2 > l1), sand(l1 < 0, l2 < l1)))
        c.assume(sor(sand(l1 > 0, l2 > l1), sand(l1 < 0, l2 < l1)))
        w = l1 / l2
        c.oblige('weight.range', sand(w > 0, w < 1))
        c.cover('value')
        if param != 'DRCT':
            c.oblige('log_linear', val_eq(r, x + (y - x) * w))
            return
        # wind direction: from ang1 the short way towards ang2, in [0, 360)
        c.oblige('direction.range', sand(r >= 0, r < 360))
        d = (y % 360) - (x % 360)
        turn = d - 360 if d > 180 else d + 360 if d < -180 else d
        q = z3.simplify((to_real(r).t - (x + turn * w).t) / 360, som=True)
        c.oblige('direction.short_arc', mkbool(z3.IsInt(q)))
    return body


def body_between(c):
    """Lemma: with a weight strictly inside (0, 1) the value lies between the ends."""
    x, y, w = SReal.var('x'), SReal.var('y'), SReal.var('w')
    c.assume(sand(w > 0, w < 1))
    r = x + (y - x) * w
    c.cover('lemma')
    c.oblige('between', sand(simplies(x <= y, sand(r >= x, r <= y)),
                             simplies(y <= x, sand(r >= y, r <= x))))


def body_loop(c):
    """Any number of parameters: each is handled on its own (parameter k of n)."""


if __name__ == '__main__':
    import time
    for nm, b in (('vapr', body_vapr), ('mixr', body_mixr), ('tv', body_tv),
                  ('tvl', body_tv_lemma), ('sclh', body_sclh), ('mhgt', body_mhgt),
                  ('def', body_defaults), ('TEMP', body_one('TEMP')), ('DRCT', body_one('DRCT')),
                  ('between', body_between)):
        t = time.time()
        c = run(nm, b)[0]
        bad = [o for o in c.obligations if o.status != 'proved']
        print(c.name, len(c.obligations), 'bad', len(bad), c.paths, round(c.solver_time, 1),
              {k: v for k, v in c.covers.items() if not v}, round(time.time() - t, 1))
        for o in bad[:6]:
            print('  ', o.name, o.status, o.detail[:700], (o.model or '')[:300])
