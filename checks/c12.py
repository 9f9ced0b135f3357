"""C12: arguments passed by the caller are never modified."""
import datetime
import warnings

import numpy as np

from contracts import adding, grib_encode, grid_select, nearest, station_select
from vp import filegen, gemref as R, gen, writers as W
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
E = 'gempakio.encode.gempak.'
FUNCTIONS = [E + n for n in (
    'GridFile.add_grid', 'SoundingFile.add_sounding', 'SurfaceFile.add_station',
    'DataManagementFile._replace_nan', 'pack_grib')] + [G + n for n in (
        'GempakGrid.gdxarray', 'GempakSounding.snxarray', 'GempakSurface.sfjson',
        'GempakSurface.nearest_time')]
TRUSTED = ['copy() and numpy.copy give an array of their own; asarray and ravel may not', 'sequences, dictionaries and arrays of the caller are values without mutators in the verifier: a call of one, or a store into one, is an obligation that fails']
ASSUMPTIONS = ['pack_grib at 1, 12, 16, 24 and 31 bits (the same code for each width, C01)', 'constructors of the writers and station_info of the readers: monitor']


def proofs(tier):
    t = [Task(n, lambda dl, m=adding, n=n, b=b: m.run(n, b, dl), functions=FUNCTIONS)
         for n, b in adding.BODIES.items() if 'length' not in n]
    for m, names in ((grid_select, ('gdxarray subset', 'gdxarray parameter',
                                    'gdxarray date_time none single text texts')),
                     (station_select, ('snxarray subset', 'snxarray station_id',
                                       'sfjson subset', 'sfjson station_id')),
                     (nearest, ('station_id', 'station_number', 'state')),
                     (grib_encode, ('precision', *(f'codes nbits={k}' for k in (
                         1, 12, 16, 24, 31)), 'words nbits=16'))):
        t += [Task(n, lambda dl, m=m, n=n: m.run(n, dl), functions=FUNCTIONS) for n in names]
    return t


MONITOR_SECONDS = 14


def same(args, before, what, case):
    if gen.snap(args) != before:
        raise Fail(f'{what} modified its arguments', case)


def quiet(fn, *a, **k):
    """Refusals are fine here: only the arguments matter."""
    try:
        return fn(*a, **k)
    except (TypeError, ValueError, KeyError, NotImplementedError):
        return None


def writing(rng, log, tmp):
    import gempakio as g
    from gempakio.encode.gempak import pack_grib
    kind = rng.choice(['grid', 'pack', 'snd', 'sfc'])
    if kind == 'pack':
        a = np.array(gen.values(rng, 12)).reshape(3, 4)
        b = gen.snap([a])
        quiet(pack_grib, a, -9999.0, rng.randint(-1, 33))
        same([a], b, 'pack_grib', {'grid': a.tolist()})
    elif kind == 'grid':
        s = W.grid_setup(rng, (3, 4))
        keep = [s['lon'], s['lat'], s['x'], s['y']]
        b0 = gen.snap(keep)
        f = g.GridFile(s['x'], s['y'], s['proj'], use_xy=True) if rng.random() < .5 else \
            g.GridFile(s['lon'], s['lat'], s['proj'])
        args = []
        for _ in range(rng.randint(1, 3)):
            a, _i, _g = W.grid_entry(rng, s)
            args.append((a, gen.snap(a)))
            quiet(f.add_grid, **a)
            same(a, args[-1][1], 'add_grid', str(a))
        tmp.save(f)
        for a, b in args:
            same(a, b, 'writing the file', str(a))
        same(keep, b0, 'GridFile', str(s['shape']))
    else:
        pars = ['PRES', 'TEMP', 'DWPT'][:rng.randint(1, 3)]
        if rng.random() < .3:
            pars = pars + [pars[0]]
        bp = gen.snap(pars)
        f = g.SoundingFile(pars) if kind == 'snd' else g.SurfaceFile(pars)
        same(pars, bp, 'the constructor', pars)
        args = []
        for _ in range(rng.randint(1, 3)):
            st = gen.station(rng)
            n = rng.randint(1, 4)
            d = {gen.case_mix(rng, p): (np.array(gen.values(rng, n, np.nan)) if rng.random() < .6
                                       else gen.values(rng, n, np.nan)) if kind == 'snd'
                 else rng.choice([1.5, float('nan')]) for p in dict.fromkeys(pars)}
            inf = {'station_id': st['id'].lower(), 'station_number': st['num'], 'state': 'wi'}
            a = [d, st['lat'], st['lon'], R.rnd_dt(rng), inf]
            if rng.random() < .1:
                a[1] = 'x'
            args.append((a, gen.snap(a)))
            quiet(f.add_sounding if kind == 'snd' else f.add_station, *a)
            same(a, args[-1][1], 'the addition', str(a)[:600])
        if f.data:
            tmp.save(f)
        for a, b in args:
            same(a, b, 'writing the file', str(a)[:600])
    log.case((kind, rng.random()))


def selecting(rng, log, tmp):
    import gempakio as g
    kind = rng.choice(['grid', 'snd', 'sfc', 'near'])
    t0 = datetime.datetime(2024, 1, 2, 3, 0)
    ts = [t0.strftime('%Y%m%d%H%M'), t0]
    if kind == 'grid':
        gs = [dict(gdt1=R.gdt(1, t0), gtm1=R.gtm(1, 6 * k, 0), gdt2=R.gdt(1, t0) if k else 0,
                   gtm2=R.gtm(1, 3, 0), lv1=500 + k, vc=1, parm='TMPK',
                   block=R.grib_block(2, 2, 8, [1, 2, 3, 255], 0.0, 1.0)) for k in range(3)]
        f = g.GempakGrid(tmp.put(R.build(R.grid_desc(rng, gs, 2, 2))))
        opts = {'parameter': ['tmpk', 'hght'], 'date_time': ts, 'coordinate': ['pres', 'none'],
                'level': [500, 501], 'date_time2': ts, 'level2': [None, 5]}
        fn = f.gdxarray
    else:
        st = [gen.station(rng) for _ in range(3)]
        num = [s['num'] for s in st]
        ids = [s['id'].lower() for s in st]
        opts = {'station_id': ids, 'station_number': num, 'date_time': ts,
                'state': ['wi', 'ok', 'tx', ''], 'country': ['us', 'ca', ''],
                'bbox': [-180.0, 180.0, -90.0, 90.0]}
        if kind == 'snd':
            d, cells = filegen.sounding(rng)
            f = g.GempakSounding(tmp.put(R.build(d)))
            fn = f.snxarray
        else:
            d, _l, cells = filegen.surface(rng)
            f = g.GempakSurface(tmp.put(R.build(d)))
            fn = f.sfjson if kind == 'sfc' else f.nearest_time
        opts['station_id'] = [cells[0]['stn']['id'].lower(), 'kxxx'][:rng.randint(1, 2)]
        opts['station_number'] = [cells[0]['stn']['num'], 12][:rng.randint(1, 2)]
        opts['date_time'] = [cells[0]['dt'].strftime('%Y%m%d%H%M'), t0]
        opts['state'] = [cells[0]['stn']['st'].lower(), 'zz'][:rng.randint(1, 2)]
        opts['country'] = [cells[0]['stn']['co'].lower(), 'zz'][:rng.randint(1, 2)]
    names = rng.sample(list(opts), rng.randint(1, 3 if kind != 'near' else 1))
    a = {n: list(opts[n]) for n in names}
    if kind == 'near':
        a.pop('date_time', None)
        a['date_time'] = t0
    b = gen.snap(a)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with limit(30, kind, str(a)):
            out = quiet(fn, **a)
            same(a, b, fn.__name__, str(a))
            inv = {'grid': 'gdinfo', 'snd': 'sninfo'}.get(kind, 'sfinfo')
            i1 = getattr(f, inv)()
            again = quiet(fn, **a)
            same(a, b, fn.__name__ + ' (again)', str(a))
    if (out is None) != (again is None) or (out is not None and len(out) != len(again)) \
            or getattr(f, inv)() != i1:
        raise Fail(f'{fn.__name__} answers differently the second time', str(a))
    log.case((kind, tuple(names), out is None))


def helpers(rng, log):
    """Functions working on arrays or dictionaries the caller passes."""
    from gempakio import VectorGraphicFile
    n = rng.randint(1, 5)
    for lat, lon in [([1.0 * k for k in range(n)], [2.0 * k for k in range(n)]),
                     (np.arange(n) * 1.0, np.arange(n) * 2.0)]:
        b = gen.snap([lat, lon])
        quiet(VectorGraphicFile.close_coordinates, lat, lon)
        quiet(VectorGraphicFile.flip_coordinates, lat, lon)
        same([lat, lon], b, 'the coordinate helper', str([lat, lon]))


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            rng.choice([writing, selecting])(rng, log, tmp)
            helpers(rng, log)
