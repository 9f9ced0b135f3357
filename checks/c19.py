"""C19: interpolated parameters lie between their neighbours; wind takes the short arc."""
import math

from contracts import thermo
from vp.api import Fail, Task

FUNCTIONS = ['gempakio.gemcalc.interp_parameters']
TRUSTED = ['log: uninterpreted, increasing, log 1 = 0; % on reals: the representative in [0, m)']
ASSUMPTIONS = ['floating point treated as real arithmetic']
BOUNDED = ['proved for the pressure with any one other parameter, and for all six sounding '
           'parameters together (the parameters are handled one by one)']


def proofs(tier):
    return [Task(f'interp_parameters {p}', lambda dl, p=p: thermo.run(
        f'interp_parameters[{p}]', thermo.body_one(p), dl), functions=FUNCTIONS)
        for p in ('TEMP', 'DWPT', 'SPED', 'HGHT', 'DRCT', 'OTHER')] + [
        Task('interp_parameters all', lambda dl: thermo.run(
            'interp_parameters[all]', thermo.body_interp, dl), functions=FUNCTIONS),
        Task('between lemma', lambda dl: thermo.run('between', thermo.body_between, dl),
             functions=FUNCTIONS)]


MONITOR_SECONDS = 8
NAMES = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']


def arc(a, b):
    """Signed shortest turn from a to b, None when opposite."""
    d = (b - a) % 360
    if d == 180:
        return None
    return d if d < 180 else d - 360


def monitor(rng, log):
    from gempakio import gemcalc as g
    while log.more():
        m = rng.choice([-9999, -9999.0, -999.0, 1e20])
        p1, p2 = rng.uniform(1, 1080), rng.uniform(1, 1080)
        if rng.random() < .2:
            p1, p2 = rng.choice([1000, 850., 500]), rng.choice([1000, 700, 100])
        k = rng.random()
        lo, hi = min(p1, p2), max(p1, p2)
        v = rng.uniform(lo, hi) if k < .8 else rng.choice([lo, hi, lo - 1, hi + 1, lo * .5,
                                                            hi * 2, -5.0, 0])
        if rng.random() < .05:
            p1 = rng.choice([0, -3.0, p1])
        names = [n for n in NAMES[1:] if rng.random() < .8]
        rng.shuffle(names)
        names.insert(rng.randint(0, len(names)), 'PRES')
        ga = {'TEMP': (-80, 40), 'DWPT': (-90, 30), 'SPED': (0, 150), 'HGHT': (0, 30000)}

        def val(n):
            if rng.random() < .12:
                return m
            if n == 'DRCT':
                return rng.choice([rng.uniform(0, 360), rng.uniform(340, 380) % 360, 0, 360.0,
                                   180, rng.uniform(-180, 540), rng.randint(0, 36) * 10])
            return rng.choice([rng.uniform(*ga[n]), rng.randint(*ga[n])])
        a = {n: p1 if n == 'PRES' else val(n) for n in names}
        b = {n: p2 if n == 'PRES' else val(n) for n in names}
        case = {'vlev': v, 'a': a, 'b': b, 'missing': m}
        ca, cb = dict(a), dict(b)
        ok = (p1 < v < p2 or p2 < v < p1) and p1 > 0 and p2 > 0
        try:
            out = g.interp_parameters(v, a, b, m)
        except ValueError:
            if ok:
                raise Fail('a target between the levels is refused', case) from None
            log.case(('refused', v, p1, p2))
            continue
        if not ok:
            raise Fail('a target not between two levels of positive pressure is accepted', case)
        if a != ca or b != cb:
            raise Fail('the levels were modified', case)
        if set(out) != set(names):
            raise Fail(f'parameters {set(out)}', case)
        w = math.log(v / p1) / math.log(p2 / p1)
        for n in names:
            x, y, got = a[n], b[n], out[n]
            if n == 'PRES':
                if got != v:
                    raise Fail(f'pressure {got!r} is not the target', case)
                continue
            if m in (x, y):
                if got != m:
                    raise Fail(f'{n} is {got!r} but missing at a level', case)
                continue
            if n == 'DRCT':
                if not 0 <= got < 360:
                    raise Fail(f'direction {got!r} out of range', case)
                d = arc(x % 360, y % 360)
                if d is None:
                    continue
                off = (got - (x + d * w)) % 360
                if min(off, 360 - off) > 1e-6:
                    raise Fail(f'direction {got!r}, short arc gives {(x + d * w) % 360!r}', case)
            else:
                want = x + (y - x) * w
                if abs(got - want) > 1e-9 * max(1, abs(x), abs(y)):
                    raise Fail(f'{n} {got!r}, log-linear {want!r}', case)
                if not min(x, y) - 1e-6 <= got <= max(x, y) + 1e-6:
                    raise Fail(f'{n} {got!r} not between', case)
        log.case((v, p1, p2, tuple(names)))


MONITORS = ['monitor']
