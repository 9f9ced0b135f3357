"""Generators shared by the monitors (seeded, structured)."""
import datetime
import random

from . import gemref as R

PARMS = ['TMPK', 'DWPK', 'HGHT', 'UREL', 'VREL', 'RELH', 'P01M', 'PRES', 'MIXR', 'TMPC', 'ABCDEFGHIJKL',
         'P06M']
VC = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']


def values(rng, n, miss=-9999.0, p=None):
    """Plausible reals with missing points in several patterns."""
    style = rng.choice(['const', 'small', 'mid', 'big', 'int', 'neg', 'mix'])
    base = rng.choice([0, 1000.0, -40.0, 273.15, 1e5, -1e4])
    g = {'const': lambda: base, 'small': lambda: base + rng.random() * 1e-3,
         'mid': lambda: base + rng.uniform(-50, 50), 'big': lambda: rng.uniform(-1e6, 1e6),
         'int': lambda: float(rng.randint(0, 255)), 'neg': lambda: -rng.random() * 100,
         'mix': lambda: rng.choice([0.0, base, rng.random(), -1.5])}[style]
    v = [g() for _ in range(n)]
    p = rng.choice([0, 0, 0.1, 0.5, 1]) if p is None else p
    if p:
        v = [miss if rng.random() < p else x for x in v]
    if rng.random() < .3 and n > 1:
        v[rng.choice([0, -1])] = miss
    return v


def station(rng, k=None, long_id=False):
    k = rng.randint(0, 9999) if k is None else k
    sid = rng.choice(['K', 'C', 'E', 'P']) + ''.join(rng.choice('ABCDEFGHXYZ0123456789')
                                                   for _ in range(3))
    if long_id and rng.random() < .5:
        sid += ''.join(rng.choice('ABCXYZ0189') for _ in range(rng.randint(1, 4)))
    return {'id': sid, 'num': rng.choice([k, 72000 + k, 999999, -9999]),
            'lat': rng.randint(-9000, 9000) / 100, 'lon': rng.randint(-18000, 18000) / 100,
            'elv': rng.choice([0, rng.randint(-50, 4000), -9999]),
            'st': rng.choice(['', 'WI', 'OK', 'TX', 'NY']), 'co': rng.choice(['', 'US', 'CA', 'MX']),
            'pri': rng.choice([0, 0, 1, 3, 9])}


def distinct(rng, fn, n, key):
    out, seen = [], set()
    while len(out) < n:
        s = fn(rng)
        if key(s) not in seen:
            seen.add(key(s))
            out.append(s)
    return out


def case_mix(rng, s):
    return ''.join(rng.choice([c.upper(), c.lower()]) for c in s)


def filter_arg(rng, pool, absent, single=None):
    """A filter argument and the set it means: single value, list, tuple, set."""
    n = rng.choice([1, 1, 2, 3])
    vals = [rng.choice(pool) if pool and rng.random() < .85 else absent for _ in range(n)]
    if n == 1 and rng.random() < .6:
        return vals[0], set(vals)
    return rng.choice([list, tuple])(vals), set(vals)


def time_arg(rng, pool):
    """A time argument: datetime, text, first/last, lists; and the set of times it means."""
    k = rng.random()
    if k < .25:
        w = rng.choice(['first', 'FIRST', 'last', 'LAST'])
        if not pool:
            return w, set()
        return w, {min(pool)} if w.lower() == 'first' else {max(pool)}
    n = rng.choice([1, 1, 2, 3])
    vals = [rng.choice(pool) if pool and rng.random() < .9 else datetime.datetime(1971, 3, 4, 5, 6)
            for _ in range(n)]
    forms = [v.strftime('%Y%m%d%H%M') if rng.random() < .5 else v for v in vals]
    if n == 1 and rng.random() < .6:
        return forms[0], set(vals)
    return rng.choice([list, tuple])(forms), set(vals)


def times(rng, n):
    out = set()
    base = R.rnd_dt(rng)
    while len(out) < n:
        if rng.random() < .7:
            t = base + datetime.timedelta(hours=rng.randint(-30, 30), minutes=rng.choice([0, 0, 15]))
        else:
            t = R.rnd_dt(rng)
        if 1969 <= t.year <= 2068:
            out.add(t)
    return sorted(out)


def snap(x):
    """Deep comparable copy of an argument."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return ('nd', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ('d', tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, list | tuple):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, set):
        return ('s', tuple(sorted(map(repr, x))))
    return (type(x).__name__, repr(x))


__all__ = ['values', 'station', 'random']
