"""C20: filling gaps in a sounding changes only missing values."""
import math

from contracts import filling
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.gemcalc.' + n for n in (
    'interp_missing_data', 'interp_logp_height', 'interp_logp_pressure', 'interp_moist_height',
    'moist_hydrostatic_height', 'scale_height', 'virtual_temperature')]
TRUSTED = ['interp_parameters by its contract (proved in C19), mixing_ratio by its contract (proved in C18)', 'log and exp: uninterpreted, increasing, exp(log x) = x, log 1 = 0']
ASSUMPTIONS = ['floating point treated as real arithmetic', 'soundings have a level or more; the missing value lies below -300 and below every value; temperatures lie above absolute zero (dewpoints above -243.5 degC), pressures between 0 and 2000 hPa and falling upward, heights rising upward', 'for filling heights, pressures are present from the second level on (the surface level may be wholly missing)', 'heights filled above the topmost complete level are only shown to lie above a level below']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: filling.run(n, b, dl), functions=FUNCTIONS, timeout=700)
            for n, b in filling.BODIES.items()]


MONITOR_SECONDS = 9
NAMES = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']


def make(rng, m, n=None):
    n = n or rng.choice([1, 2, 3, 4, rng.randint(1, 30)])
    ps = sorted(rng.sample(range(50, 10600), n), reverse=True)
    z = rng.uniform(-100, 1500)
    s = {k: [] for k in NAMES}
    for k in range(n):
        p = ps[k] / 10
        if k:
            z += 7500 * math.log(ps[k - 1] / ps[k])
        t = rng.uniform(-80, 40)
        for nm, v in zip(NAMES, [p, t, t - rng.uniform(0, 30), float(rng.randint(0, 360)),
                                 float(rng.randint(0, 150)), z], strict=True):
            s[nm].append(round(v, 3))
    s['STID'] = 'KXXX'
    s['SELV'] = 100
    return s


def holes(rng, s, names, keep=()):
    m = s.pop('_m')
    for nm in names:
        p = rng.choice([0, .2, .5, .9])
        for k in range(len(s[nm])):
            if rng.random() < p and k not in keep:
                s[nm][k] = m
    return s


def copy(s):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}


def call(fn, s, m, case):
    with limit(10, fn.__name__, case):
        if m == -9999 and len(s['PRES']) % 2:
            fn(s)
        else:
            fn(s, m)


def same_other(old, new, changed, case):
    if list(old) != list(new):
        raise Fail(f'fields {list(new)}', case)
    for k in old:
        if k not in changed and old[k] != new[k]:
            raise Fail(f'{k} changed from {old[k]} to {new[k]}', case)
        if k in changed and len(old[k]) != len(new[k]):
            raise Fail(f'{k} has {len(new[k])} levels for {len(old[k])}', case)


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def missing_data(rng, log, m):
    from gempakio.gemcalc import interp_missing_data as fn
    s = make(rng, m)
    s['_m'] = m
    holes(rng, s, NAMES[1:])
    if rng.random() < .1:
        s['TEMP'][-1] = m
    old, case = copy(s), {'function': 'interp_missing_data', 'sounding': copy(s), 'missing': m}
    call(fn, s, m, case)
    same_other(old, s, ('TEMP', 'DWPT', 'DRCT', 'SPED'), case)
    n = len(s['PRES'])
    ps = s['PRES']
    for v1, v2 in (('TEMP', 'DWPT'), ('DRCT', 'SPED'), ('DWPT', None), ('SPED', None)):
        for i in range(n):
            if old[v1][i] != m:
                paired = {'DWPT': 'TEMP', 'SPED': 'DRCT'}.get(v1)
                if paired and old[paired][i] == m and 0 < i < n - 1:
                    continue    # re-interpolated together with its missing partner
                if s[v1][i] != old[v1][i]:
                    raise Fail(f'{v1}[{i}] was {old[v1][i]} and became {s[v1][i]}', case)
                continue
            if i in (0, n - 1):
                if s[v1][i] != m:
                    raise Fail(f'{v1}[{i}] at an end of the sounding was filled', case)
                continue
            if v1 in ('DWPT', 'SPED'):
                if s[v1][i] == m:
                    continue
                lo = s[v1][i - 1]
                # the level it was interpolated to: the next one above with the leading value
                ups = [s[v1][j] for j in range(i + 1, n) if s[v1][j] != m]
                if lo == m or not ups:
                    raise Fail(f'{v1}[{i}] filled from a missing level', case)
                cand = [lo, *ups]
                if not min(cand) - 1e-9 <= s[v1][i] <= max(cand) + 1e-9:
                    raise Fail(f'{v1}[{i}] = {s[v1][i]} lies outside its neighbours', case)
                continue
            below = next((j for j in range(i - 1, -1, -1) if old[v1][j] != m), None)
            above = next((j for j in range(i + 1, n) if old[v1][j] != m), None)
            if below is None or above is None:
                if s[v1][i] != m:
                    raise Fail(f'{v1}[{i}] filled without levels on both sides', case)
                continue
            if v1 == 'TEMP':
                w = math.log(ps[i] / ps[below]) / math.log(ps[above] / ps[below])
                want = old[v1][below] + (old[v1][above] - old[v1][below]) * w
                if not near(s[v1][i], want):
                    raise Fail(f'{v1}[{i}] = {s[v1][i]}, log-linear {want}', case)
            elif not 0 <= s[v1][i] < 360:
                raise Fail(f'{v1}[{i}] = {s[v1][i]}', case)
    log.case(('data', str(old)[:200]))


def logp_height(rng, log, m):
    from gempakio.gemcalc import interp_logp_height as fn
    s = make(rng, m)
    s['_m'] = m
    holes(rng, s, ['HGHT', 'TEMP', 'DWPT'])
    if rng.random() < .3:       # missing surface level, as the merging leaves it
        for k in ('PRES', 'HGHT', 'TEMP', 'DWPT'):
            s[k][0] = m
    old, case = copy(s), {'function': 'interp_logp_height', 'sounding': copy(s), 'missing': m}
    call(fn, s, m, case)
    same_other(old, s, ('HGHT',), case)
    n = len(s['PRES'])
    z = old['HGHT']
    known = [i for i in range(n) if z[i] != m]
    for i in range(n):
        got = s['HGHT'][i]
        if z[i] != m:
            if got != z[i]:
                raise Fail(f'HGHT[{i}] was {z[i]} and became {got}', case)
            continue
        lo = max((j for j in known if j < i), default=None)
        hi = min((j for j in known if j > i), default=None)
        if lo is not None and hi is not None:
            ps = s['PRES']
            w = math.log(ps[i] / ps[lo]) / math.log(ps[hi] / ps[lo])
            want = z[lo] + (z[hi] - z[lo]) * w
            if not near(got, want):
                raise Fail(f'HGHT[{i}] = {got}, log-linear {want}', case)
        elif lo is None:
            if got != m:
                raise Fail(f'HGHT[{i}] = {got} filled below all known heights', case)
        elif got != m:
            if s['TEMP'][i] == m:
                raise Fail(f'HGHT[{i}] = {got} without a temperature', case)
            if not got > z[known[-1]]:
                raise Fail(f'HGHT[{i}] = {got} is not above {z[known[-1]]}', case)
        elif s['TEMP'][i] != m and any(s['TEMP'][j] != m for j in known[-1:]):
            raise Fail(f'HGHT[{i}] not extrapolated', case)
    log.case(('logz', str(old)[:200]))


def logp_pressure(rng, log, m):
    from gempakio.gemcalc import interp_logp_pressure as fn
    s = make(rng, m)
    s['_m'] = m
    holes(rng, s, ['PRES', 'HGHT', 'TEMP'])
    old, case = copy(s), {'function': 'interp_logp_pressure', 'sounding': copy(s), 'missing': m}
    call(fn, s, m, case)
    same_other(old, s, ('PRES',), case)
    n = len(s['PRES'])
    both = [i for i in range(n) if m not in (old['PRES'][i], old['HGHT'][i])]
    for i in range(n):
        got = s['PRES'][i]
        if old['PRES'][i] != m:
            if got != old['PRES'][i]:
                raise Fail(f'PRES[{i}] was {old["PRES"][i]} and became {got}', case)
            continue
        lo = max((j for j in both if j < i), default=None)
        hi = min((j for j in both if j > i), default=None)
        z = old['HGHT'][i]
        if lo is None or hi is None or z == m:
            if got != m:
                raise Fail(f'PRES[{i}] = {got} filled without two levels', case)
            continue
        pl, ph, zl, zh = old['PRES'][lo], old['PRES'][hi], old['HGHT'][lo], old['HGHT'][hi]
        want = pl * (ph / pl) ** ((z - zl) / (zh - zl))
        if not near(got, want) or not ph - 1e-6 <= got <= pl + 1e-6:
            raise Fail(f'PRES[{i}] = {got}, log-linear {want}', case)
    log.case(('logp', str(old)[:200]))


def moist_height(rng, log, m):
    from gempakio.gemcalc import interp_moist_height as fn
    s = make(rng, m)
    s['_m'] = m
    holes(rng, s, ['HGHT', 'DWPT', *(['TEMP'] if rng.random() < .4 else [])])
    if rng.random() < .3:
        for k in ('PRES', 'HGHT', 'TEMP', 'DWPT'):
            s[k][0] = m
    old, case = copy(s), {'function': 'interp_moist_height', 'sounding': copy(s), 'missing': m}
    call(fn, s, m, case)
    same_other(old, s, ('HGHT',), case)
    n = len(s['PRES'])
    anchor = [i for i in range(n)
              if m not in (old['PRES'][i], old['TEMP'][i], old['HGHT'][i])]
    prev = None
    for i in range(n):
        got = s['HGHT'][i]
        if old['HGHT'][i] != m:
            if got != old['HGHT'][i]:
                raise Fail(f'HGHT[{i}] was {old["HGHT"][i]} and became {got}', case)
        elif not anchor or i < anchor[0] or old['TEMP'][i] == m:
            if got != m:
                raise Fail(f'HGHT[{i}] = {got} filled below the first complete level or '
                           'without a temperature', case)
        else:
            lo = max(j for j in anchor if j < i)
            hi = min((j for j in anchor if j > i), default=None)
            if got == m or not got > old['HGHT'][lo] or (
                    hi is not None and not got < old['HGHT'][hi]):
                raise Fail(f'HGHT[{i}] = {got} is not between its neighbours', case)
            if prev is not None and not got > prev:
                raise Fail(f'HGHT[{i}] = {got} is not above the level below ({prev})', case)
        if i in anchor or (old['HGHT'][i] == m and got != m):
            prev = got
    log.case(('moist', str(old)[:200]))


def monitor(rng, log):
    fns = [missing_data, logp_height, logp_pressure, moist_height]
    while log.more():
        for f in fns:
            f(rng, log, rng.choice([-9999, -9999.0, -9999.0, -999.0]))


MONITORS = ['monitor']
