"""C18: thermodynamic calculations propagate missing data and follow their formulas."""
import math

from contracts import thermo
from vp.api import Fail, Task

F = 'gempakio.gemcalc.'
FUNCTIONS = [F + f for f in ('vapor_pressure', 'mixing_ratio', 'virtual_temperature',
                             'scale_height', 'moist_hydrostatic_height')]
TRUSTED = ['exp and log: uninterpreted, with exp > 0, log increasing and log 1 = 0']
ASSUMPTIONS = ['floating point treated as real arithmetic (constants are the exact doubles)',
               'the missing flag is not a value the formulas themselves produce',
               'dewpoints are above -243.5 degC, pressures above -200000 hPa']


def proofs(tier):
    def t(nm, body, fs):
        return Task(nm, lambda dl: thermo.run(nm, body, dl), functions=[F + f for f in fs])
    return [t('vapor_pressure', thermo.body_vapr, ['vapor_pressure']),
            t('mixing_ratio', thermo.body_mixr, ['mixing_ratio']),
            t('virtual_temperature', thermo.body_tv, ['virtual_temperature']),
            t('virtual temperature lemma', thermo.body_tv_lemma, ['virtual_temperature']),
            t('scale_height', thermo.body_sclh, ['scale_height']),
            t('moist_hydrostatic_height', thermo.body_mhgt, ['moist_hydrostatic_height']),
            t('default flag', thermo.body_defaults, [f.removeprefix(F) for f in FUNCTIONS])]


MONITOR_SECONDS = 8


def vapr(td, m):
    return m if td == m else 6.112 * math.exp(17.67 * td / (td + 243.5))


def mixr(td, p, m):
    if m in (td, p):
        return m
    e = (1.001 + (p - 100.0) / 900.0 * 0.0034) * vapr(td, m)
    return m if e > p / 2 else 1000 * 0.62197 * e / (p - e)


def tvrk(t, td, p, m):
    if m in (t, p):
        return m
    tk = t + 273.15
    r = mixr(td, p, m)
    return tk if r == m else tk * (1 + r / 1000 / 0.62197) / (1 + r / 1000)


def sclh(tb, tt, db, dt, pb, pt, m):
    if m in (tb, tt, pb, pt):
        return m
    return 287.04 / 9.80616 * (tvrk(tb, db, pb, m) + tvrk(tt, dt, pt, m)) / 2


def mhgt(z, pb, pt, s, m):
    if m in (z, pb, pt, s) or pb <= 0 or pt <= 0:
        return m
    return z + s * math.log(pb / pt)


FUNCS = {'vapor_pressure': (vapr, 'd'), 'mixing_ratio': (mixr, 'dp'),
         'virtual_temperature': (tvrk, 'tdp'), 'scale_height': (sclh, 'ttddpp'),
         'moist_hydrostatic_height': (mhgt, 'zpps')}


def near(a, b, m):
    if a == m or b == m:
        return a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def value(rng, kind, m):
    if rng.random() < .2:
        return m
    if rng.random() < .1:
        return {'p': rng.choice([0, -5.0, 1, 1050.0]), 'z': 0, 's': 0}.get(kind, 0)
    v = {'t': lambda: rng.uniform(-120, 60), 'd': lambda: rng.choice([
        rng.uniform(-120, 45), rng.uniform(20, 200)]), 'p': lambda: rng.choice([
            rng.uniform(1, 1080), rng.uniform(1, 60)]),
        'z': lambda: rng.uniform(-400, 30000), 's': lambda: rng.uniform(4000, 10000)}[kind]()
    return round(v, rng.choice([0, 1, 3, 9])) if rng.random() < .9 else int(v)


def monitor(rng, log):
    from gempakio import gemcalc as g
    while log.more():
        m = rng.choice([-9999, -9999, -9999.0, -999.0, 1e20])
        for name, (ref, kinds) in FUNCS.items():
            args = [value(rng, k, m) for k in kinds]
            if name in ('mixing_ratio', 'virtual_temperature', 'scale_height') and any(
                    a == 0 for a, k in zip(args, kinds) if k == 'p'):
                args = [1.0 if k == 'p' and a == 0 else a for a, k in zip(args, kinds)]
            case = {'function': name, 'arguments': args, 'missing': m}
            try:
                want = ref(*args, m)
            except ZeroDivisionError:
                continue
            default = m in (-9999, -9999.0) and rng.random() < .5
            try:
                got = getattr(g, name)(*args) if default else getattr(g, name)(*args, m)
            except Exception as e:   # noqa: BLE001
                raise Fail(f'{type(e).__name__}: {e}', case) from None
            if not near(got, want, m):
                raise Fail(f'{name}: got {got!r}, formula gives {want!r}', case)
            log.case((name, tuple(args), m))
        # physical inputs
        t, p = rng.uniform(-90, 50), rng.uniform(5, 1080)
        td = t - rng.uniform(0, 30)
        e = (1.001 + (p - 100.0) / 900.0 * 0.0034) * vapr(td, -9999)
        if 0 < e < p / 2:
            case = {'t': t, 'td': td, 'p': p}
            r, tv = g.mixing_ratio(td, p), g.virtual_temperature(t, td, p)
            if not r > 0:
                raise Fail(f'mixing ratio {r} is not positive', case)
            if tv < t + 273.15 - 1e-9:
                raise Fail(f'virtual temperature {tv} is below the temperature', case)
            s = g.scale_height(t, t, td, td, p, p)
            z = g.moist_hydrostatic_height(0.0, p, p * rng.uniform(.1, .99), s)
            if not z > 0:
                raise Fail('height does not increase as pressure falls', case)


MONITORS = ['monitor']
