"""Random use of the three writers, with the expected contents kept alongside (monitors only)."""
import datetime
import functools
import math
import random

import numpy as np

from . import gemref as R, gen


@functools.lru_cache(maxsize=None)
def proj(s):
    import pyproj
    return pyproj.Proj(s)


PROJS = {
    'MER': '+proj=merc +lat_ts={a1} +lon_0={a2}', 'STR': '+proj=stere +lat_0={a1} +lon_0={a2}',
    'LCC': '+proj=lcc +lat_1={a1} +lat_2={a3} +lon_0={a2}',
    'CED': '+proj=eqc +lat_0={a1} +lon_0={a2}', 'ORT': '+proj=ortho +lat_0={a1} +lon_0={a2}',
    'AED': '+proj=aeqd +lat_0={a1} +lon_0={a2}', 'LEA': '+proj=laea +lat_0={a1} +lon_0={a2}',
    'GNO': '+proj=gnom +lat_0={a1} +lon_0={a2}'}


def grid_setup(rng, shape=None, name=None):
    """lon, lat, Proj and the navigation they mean."""
    name = name or rng.choice(list(PROJS))
    ny, nx = shape or rng.choice([(1, 1), (1, 4), (3, 1), (2, 2), (3, 4), (5, 7),
                                  (rng.randint(1, 9), rng.randint(1, 9))])
    a2 = rng.choice([0, -95, -100, 90, -180 + 30])
    a1 = rng.choice([25, 45, 60, 35])
    a3 = 0
    if name == 'LCC':
        a1, a3 = rng.choice([(25, 25), (30, 60), (33, 45)])
    if name == 'MER':
        a1 = rng.choice([0, 20])
    if name == 'CED':
        a1 = 0
    if name in ('LEA', 'GNO'):
        a1, a2 = rng.choice([45, 30.5, 60]), rng.choice([-95, 10, -100.25])
    p = proj(PROJS[name].format(a1=a1, a2=a2, a3=a3) + ' +R=6371200')
    # a small area around the centre of the projection
    cx, cy = p(a2, a1 if name not in ('MER', 'CED') else 30)
    x = cx + np.arange(nx) * 40000.0
    y = cy + np.arange(ny) * 40000.0
    xx, yy = np.meshgrid(x, y)
    lon, lat = p(xx, yy, inverse=True)
    return {'name': name, 'proj': p, 'lon': lon, 'lat': lat, 'x': x, 'y': y,
            'angles': (a1, a2, a3), 'shape': (ny, nx)}


TYPES = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}
TYPENAME = ['analysis', 'forecast', 'guess', 'initial']


def grid_time(rng, base=None, t=None):
    """(argument, type code, init, hours, minutes) of a grid time."""
    d = base or R.rnd_dt(rng)
    k = rng.random()
    if t is None and k < .3:
        return d, 0, d, d.hour, d.minute
    txt = d.strftime('%Y%m%d%H%M')
    if t is None and k < .5:
        return txt, 0, d, d.hour, d.minute
    t = t or rng.choice('AFVGI')
    hh = rng.choice([0, 6, 99, 100, 240, 999, rng.randint(0, 384)])
    mm = rng.choice([0, 0, 0, 15, 30, 59])
    form = rng.choice(['hhh', 'hhhmm', 'none', 'short'])
    if form == 'none':
        hh = mm = 0
        arg = txt + t
    elif form == 'short' and hh < 100:
        mm = 0
        arg = txt + t + f'{hh:02d}'
    elif form == 'hhhmm':
        arg = txt + t + f'{hh:03d}{mm:02d}'
    else:
        mm = 0
        arg = txt + t + f'{hh:03d}'
    if rng.random() < .2:
        arg = arg.lower()
    return arg, TYPES[t], d, hh, mm


def valid(tc, d, h, m):
    if tc == 0:
        # an analysis is valid at its own time
        return d
    return d + datetime.timedelta(hours=h, minutes=m)


def grid_entry(rng, setup, k=0):
    """Arguments of add_grid and the inventory they mean."""
    ny, nx = setup['shape']
    arg, tc, d, h, m = grid_time(rng)
    if tc == 0 and isinstance(arg, str) and arg.upper()[12:13] == 'A':
        v1 = d + datetime.timedelta(hours=h, minutes=m)
    else:
        v1 = valid(tc, d, h, m)
    a2 = None
    v2 = None
    if rng.random() < .3:
        lt = {0: 'A', 1: rng.choice('FV'), 2: 'G', 3: 'I'}[tc]
        if tc == 0 and rng.random() < .7:
            d2 = R.rnd_dt(rng)
            a2 = rng.choice([d2, d2.strftime('%Y%m%d%H%M')])
            v2 = d2
        else:
            a2, tc2, d2, h2, m2 = grid_time(rng, t=lt)
            v2 = d2 + datetime.timedelta(hours=h2, minutes=m2)
    lv = rng.choice([0, 500, 1000, rng.randint(0, 100000), 850.0])
    lv2 = rng.choice([None, None, 0, 700, rng.randint(0, 2000)])
    vc = rng.choice([None] + gen.VC)
    nm = rng.choice(gen.PARMS)
    vals = gen.values(rng, nx * ny, np.nan)
    g = np.array(vals, dtype=rng.choice([np.float64, np.float32])).reshape(ny, nx)
    if rng.random() < .3:
        g = np.asfortranarray(g)
    args = dict(grid=g, parameter_name=gen.case_mix(rng, nm),
                vertical_coordinate=None if vc is None else gen.case_mix(rng, vc),
                level=lv, date_time=arg, level2=lv2, date_time2=a2)
    inv = (TYPENAME[tc], v1, v2, nm, int(lv), None if lv2 is None else int(lv2),
           (vc or 'NONE').upper())
    return args, inv, g.copy()


def snd_entry(rng, params, st=None, dt=None):
    n = rng.choice([1, 1, 2, 5, rng.randint(1, 40)])
    data = {}
    for k, p in enumerate(params):
        v = gen.values(rng, n, float('nan'))
        if k == 0:
            v = sorted({1050 - 7.5 * j - rng.choice([0, .25]) for j in range(n)}, reverse=True)
            if rng.random() < .2 and p != 'PRES':
                v[-1] = float('nan')
        data[gen.case_mix(rng, p)] = np.array(v, dtype=rng.choice([np.float64, np.float32]))
    it = list(data.items())
    rng.shuffle(it)
    return dict(it), st, dt


def close32(a, b):
    """Equal as 32-bit reals, NaN as missing."""
    a, b = float(a), float(b)
    if math.isnan(b):
        return math.isnan(a) or a == -9999.0
    return np.float32(a) == np.float32(b)


__all__ = ['random']
