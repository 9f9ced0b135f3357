"""C11: adding the same entry replaces it; adding others never disturbs it."""
import datetime

import numpy as np

from contracts import adding
from vp import gemref as R, gen, writers as W
from vp.api import Fail, Task, limit

E = 'gempakio.encode.gempak.'
FUNCTIONS = [E + n for n in (
    'GridFile.add_grid', 'SoundingFile.add_sounding', 'SurfaceFile.add_station',
    'SoundingFile._validate_length', 'SurfaceFile._validate_length',
    'DataManagementFile._replace_nan', 'DataManagementFile._init_headers',
    'DataManagementFile._encode_vertical_coordinate')]
TRUSTED = ['a set holds what was added to it and what it held (the sets of headers: OrderedSet, C30, or set)', 'sorted: the elements of the set, in an order, when all places of all headers are of one kind each (proved)', 'a named tuple refuses other names than its own and keeps its fields', 'strptime on full-width digit fields; date + timedelta (an unknown function of both)', 'int() and str.upper(); numpy.copy copies']
ASSUMPTIONS = ['grid names of 1, 4 and 12 characters and coordinates none, PRES, HGHT (others by the monitor)', 'the files written from what is held: C07 to C09', 'text data names by upper() only; station texts of any length']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: adding.run(n, b, dl), functions=FUNCTIONS)
            for n, b in adding.BODIES.items()]


MONITOR_SECONDS = 16


def expect(fn, case, what):
    """A call that must be refused with an ordinary error."""
    try:
        fn()
    except (TypeError, ValueError, KeyError, AttributeError, IndexError, OverflowError):
        return
    raise Fail(f'accepted: {what}', case)


DT = datetime.datetime(2024, 5, 6, 7, 8)


def bad_grid(rng, f, s, hist):
    ny, nx = s['shape']
    ok = dict(grid=np.zeros((ny, nx)), parameter_name='TMPK', vertical_coordinate='PRES', level=1,
              date_time=DT)
    bad = rng.choice([
        ('a list for a grid', {'grid': [[0.0] * nx] * ny}),
        ('a grid of another shape', {'grid': np.zeros((ny + 1, nx))}),
        ('a flat grid', {'grid': np.zeros(ny * nx)}),
        ('a number for a name', {'parameter_name': 3}),
        ('a 13 character name', {'parameter_name': 'ABCDEFGHIJKLM'}),
        ('a number for a coordinate', {'vertical_coordinate': 3}),
        ('a 5 character coordinate', {'vertical_coordinate': 'PRESS'}),
        ('an unknown coordinate', {'vertical_coordinate': 'QQQQ'}),
        ('text for a level', {'level': '500'}),
        ('no level', {'level': None}),
        ('a number for a time', {'date_time': 20240506}),
        ('a short time', {'date_time': '20240506'}),
        ('a malformed time', {'date_time': '202413010000'}),
        ('two type letters', {'date_time': '202405060708F006A'}),
        ('text for level2', {'level2': '5'}),
        ('a number for a second time', {'date_time2': 5}),
        ('a short second time', {'date_time2': '2024'}),
        ('another type in the second time', {'date_time': '202405060708F006',
                                             'date_time2': '202405060708A'}),
        ('a malformed second time', {'date_time2': '202405320000'})])
    hist.append(('refused', bad[0]))
    return lambda: f.add_grid(**{**ok, **bad[1]}), bad[0]


def bad_snd(rng, f, pars, hist, sfc):
    arr = (lambda n=2: 1.0) if sfc else (lambda n=2: np.ones(n))
    ok = dict(data={p: arr() for p in pars}, slat=1.0, slon=2.0, date_time=DT)
    opts = [('data that is no dict', {'data': [1, 2]}),
            ('an unknown parameter', {'data': {**ok['data'], 'ZZZZ': arr()}}),
            ('a parameter lacking', {'data': {p: arr() for p in pars[1:]}}),
            ('text for a latitude', {'slat': '1'}), ('text for a longitude', {'slon': '1'}),
            ('a number for a time', {'date_time': 5}),
            ('a malformed time', {'date_time': '2024-13-01T0000'}),
            ('a bad station number', {'station_info': {'station_number': 'x'}}),
            ('a bad elevation', {'station_info': {'elevation': 'high'}})]
    if sfc:
        opts.append(('array values', {'data': {p: np.ones(2) for p in pars}}))
        opts.append(('a priority that is no number', {'station_info': {'priority': 'x'}}))
    else:
        opts.append(('too many levels', {'data': {p: np.ones(600) for p in pars}}))
        if len(pars) > 1:
            opts.append(('lists of different lengths',
                         {'data': {p: np.ones(2 + k) for k, p in enumerate(pars)}}))
    bad = rng.choice(opts)
    hist.append(('refused', bad[0]))
    call = f.add_station if sfc else f.add_sounding
    return lambda: call(**{**ok, **bad[1]}), bad[0]


def one(rng, log, tmp):
    import gempakio as g
    kind = rng.choice(['grid', 'snd', 'sfc'])
    hist = []
    want = {}
    if kind == 'grid':
        s = W.grid_setup(rng, (rng.randint(1, 3), rng.randint(1, 3)), 'CED')
        f = g.GridFile(s['lon'], s['lat'], s['proj'])
        f.precision = 31
    else:
        pars = rng.sample(['PRES', 'TEMP', 'DWPT', 'SPED'], rng.randint(1, 4))
        if 'PRES' not in pars:
            pars[0] = 'PRES'
        f = g.SoundingFile(pars) if kind == 'snd' else g.SurfaceFile(pars)
    lv = [500, 700, 850]
    tms = [DT, DT + datetime.timedelta(hours=1)]
    names = ['TMPK', 'HGHT']
    stn = gen.distinct(rng, gen.station, 2, lambda s: s['id'])
    stn.append({**stn[0], rng.choice(['num', 'elv']): 17})
    stn.append({**stn[0], 'st': 'ZZ'})
    before = None
    for _ in range(rng.randint(1, 12)):
        refuse = rng.random() < .35
        if refuse:
            if want:
                _p, before = tmp.save(f)
            call, what = bad_grid(rng, f, s, hist) if kind == 'grid' else \
                bad_snd(rng, f, pars, hist, kind == 'sfc')
            expect(call, {'kind': kind, 'history': str(hist)[-1500:]}, what)
            if want and tmp.save(f)[1] != before:
                raise Fail(f'a refused addition ({what}) changed the file',
                           {'kind': kind, 'history': str(hist)[-1500:]})
            continue
        if kind == 'grid':
            t, n, v = rng.choice(tms), rng.choice(names), rng.choice(lv)
            t2 = rng.choice([None, None, DT, DT.replace(tzinfo=datetime.timezone.utc)])
            fc = rng.choice(['', '', 'F006', 'F012'])
            if fc:
                t2 = None if t2 is None else t2.strftime('%Y%m%d%H%M') + fc
            arr = np.array(gen.values(rng, s['shape'][0] * s['shape'][1], np.nan,
                                      p=rng.choice([0, .2]))).reshape(s['shape'])
            arr = np.round(np.clip(arr, -1000, 1000), 1)
            f.add_grid(arr, gen.case_mix(rng, n), 'PRES', v,
                       t.strftime('%Y%m%d%H%M') + fc if fc else t.replace(
                           tzinfo=rng.choice([None, datetime.timezone.utc])), date_time2=t2)
            k = (t, n, v, fc, t2 is not None)
            val = arr.tolist()
        else:
            st, t = rng.choice(stn), rng.choice(tms)
            inf = {'station_id': st['id'], 'station_number': st['num'], 'elevation': st['elv'],
                   'state': st['st'], 'country': st['co']}
            nl = rng.randint(1, 4)
            if kind == 'snd':
                d = {p: np.array([rng.randint(1, 999) + .5 for _ in range(nl)]) for p in pars}
                d['PRES'] = np.sort(d['PRES'])[::-1].copy() + np.arange(nl)[::-1]
                f.add_sounding(d, st['lat'], st['lon'], t, inf)
                val = {p: v.tolist() for p, v in d.items()}
            else:
                d = {p: rng.randint(1, 999) + .5 for p in pars}
                f.add_station(d, st['lat'], st['lon'], t, inf)
                val = d
            k = (t, st['id'], st['num'], st['elv'], st['st'])
        hist.append((str(k), str(val)[:200]))
        want[k] = val
    if not want:
        return
    case = {'kind': kind, 'history': str(hist)[:4000]}
    with limit(60, 'write and read', case):
        path, _b = tmp.save(f)
        got = {}
        if kind == 'grid':
            r = g.GempakGrid(path)
            inv = r.gdinfo()
            for x, da in zip(inv, r.gdxarray(), strict=True):
                off = x.DATTIM1 - (x.DATTIM1 if x.TYPE == 'analysis' else x.DATTIM1)
                fc = '' if x.TYPE == 'analysis' else 'F'
                got.setdefault((x.PARM, x.LEVEL1, fc, x.DATTIM2 is not None, x.DATTIM1), []).append(
                    np.round(np.where(np.isnan(da.values), np.nan, da.values), 1).reshape(
                        s['shape']))
                del off
            exp = {}
            for (t, n, v, fc, h2), val in want.items():
                vt = t + datetime.timedelta(hours=int(fc[1:])) if fc else t
                exp.setdefault((n, v, fc[:1], h2, vt), []).append(np.array(val))
            if {k: len(v) for k, v in got.items()} != {k: len(v) for k, v in exp.items()}:
                raise Fail(f'grids {sorted(map(str, got))[:5]}, added {sorted(map(str, exp))[:5]}',
                           case)
            for k, v in exp.items():
                gk = got[k]
                for a in v:
                    if not any(np.allclose(a, b, atol=.06, equal_nan=True) for b in gk):
                        raise Fail(f'{k}: data {gk}, added {a.tolist()}', case)
        elif kind == 'snd':
            r = g.GempakSounding(path)
            for x, ds in zip(r.sninfo(), r.snxarray(), strict=True):
                got[x.DATTIM, x.ID, x.NUMBER, x.ELEV, x.STATE] = {
                    p: np.asarray(ds[p.lower()].values).reshape(-1).astype(float).tolist()
                    for p in pars}
            if got != want:
                raise Fail(f'soundings {got}, added {want}'[:1500], case)
        else:
            for o in g.GempakSurface(path).sfjson():
                p = o['properties']
                kk = (p['date_time'], p['station_id'], p['station_number'], p['elevation'],
                      p['state'])
                if kk in got:
                    raise Fail(f'two reports for {kk}', case)
                got[kk] = {q: o['values'][q.lower()] for q in pars}
            if got != want:
                raise Fail(f'reports {got}, added {want}'[:1500], case)
    log.case(str(case)[:600], sample=str(case)[:200])


def limits(rng, log):
    """Additions beyond the header limit are refused and change nothing."""
    import gempakio as g
    import gempakio.encode.gempak as E
    old = E.MMHDRS
    try:
        for cap in (4, 5):
            E.MMHDRS = cap
            with R.Scratch() as tmp:
                for kind in ('snd', 'sfc', 'grid'):
                    if kind == 'grid':
                        s = W.grid_setup(rng, (2, 2), 'CED')
                        f = g.GridFile(s['lon'], s['lat'], s['proj'])
                    else:
                        f = g.SoundingFile(['PRES']) if kind == 'snd' else g.SurfaceFile(['PRES'])
                    n = refused = 0
                    for k in range(8):
                        before = tmp.save(f)[1] if n else None
                        late = datetime.timedelta(hours=k if k > 3 else 0)
                        try:
                            if kind == 'grid':
                                f.add_grid(np.full((2, 2), float(k)), 'TMPK', 'PRES', k, DT)
                            elif kind == 'snd':
                                f.add_sounding({'PRES': np.ones(2)}, 1.0, float(k), DT + late)
                            else:
                                f.add_station({'PRES': 1.0}, 1.0, float(k), DT + late)
                            n += 1
                            if f.rows + f.columns > cap:
                                raise Fail(f'{kind}: {f.rows} rows and {f.columns} columns with a '
                                           f'limit of {cap}', {'limit': cap})
                        except ValueError:
                            refused += 1
                            if n and tmp.save(f)[1] != before:
                                raise Fail(f'{kind}: an addition beyond the limit of {cap} changed '
                                           'the file', {'limit': cap, 'added': n}) from None
                            if kind == 'sfc':
                                f.add_station({'PRES': 1.0}, 1.0, 0.0, DT)
                            elif kind == 'snd':
                                f.add_sounding({'PRES': np.ones(2)}, 1.0, 0.0, DT)
                            else:
                                f.add_grid(np.zeros((2, 2)), 'TMPK', 'PRES', 0, DT)
                            if n and tmp.save(f)[1] != before:
                                raise Fail(f'{kind}: replacing an entry after an addition beyond '
                                           f'the limit of {cap} changed the others',
                                           {'limit': cap, 'added': n}) from None
                    if not refused:
                        raise Fail(f'{kind}: no addition refused with a limit of {cap}',
                                   {'limit': cap})
                    log.case((kind, cap))
    finally:
        E.MMHDRS = old


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)


MONITORS = ['monitor', 'limits']
