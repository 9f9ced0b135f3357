"""C14: sounding selection returns exactly the matching soundings."""
import numpy as np

from contracts import station_select
from vp import filegen, gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakSounding.snxarray',
             'gempakio.decode.gempak._bbox_filter']
BOUNDED = ['how a record is presented (snxarray record ...): for the sets of parameter names listed in '
           'contracts/station_select.py, any values']
TRUSTED = ['sorted() of the inventory lists it in inventory order', 'datetime.strptime reads the date-time a text names', 'numpy: new axes keep the elements; np.ma.array masks where its mask is true', 'xarray.Dataset holds what it is given; sortby orders it by the coordinate named']
ASSUMPTIONS = ['names in the inventory are upper case', 'requested lists hold no None', 'filters are given as any subset of lists, and each in each of its forms with all others absent '
 'or given', 'the row and column of an inventory entry are those of its record (built so by __init__)']


def proofs(tier):
    return [Task(n, lambda dl, n=n: station_select.run(n, dl), functions=FUNCTIONS, timeout=800)
            for n in station_select.PARTS] + [
        Task(n, lambda dl, n=n: station_select.run(n, dl), functions=FUNCTIONS,
             bounded='sets of parameter names')
        for n in station_select.RECORD_PARTS]



MONITOR_SECONDS = 14


def ask(rng, cells):
    """Filters as a caller gives them, and their meaning on a cell."""
    kw, preds = {}, []
    some = rng.choice(cells)
    stn = [c['stn'] for c in cells]

    def names(attr, absent):
        pool = [s[attr] for s in stn] + [some['stn'][attr]] * 3
        a, m = gen.filter_arg(rng, pool, absent)
        return (gen.case_mix(rng, a) if isinstance(a, str) else
                type(a)(gen.case_mix(rng, x) for x in a)), m

    if rng.random() < .4:
        kw['station_id'], m = names('id', 'KQQQ')
        preds.append(lambda c, m=m: c['stn']['id'] in m)
    if rng.random() < .3:
        a, m = gen.filter_arg(rng, [s['num'] for s in stn] + [some['stn']['num']], 424242)
        kw['station_number'] = a
        preds.append(lambda c, m=m: c['stn']['num'] in m)
    if rng.random() < .3:
        kw['state'], m = names('st', 'QQ')
        preds.append(lambda c, m=m: c['stn']['st'] in m)
    if rng.random() < .3:
        kw['country'], m = names('co', 'QQ')
        preds.append(lambda c, m=m: c['stn']['co'] in m)
    if rng.random() < .3:
        b = filegen.box_arg(rng, stn)
        kw['bbox'] = b
        preds.append(lambda c, b=b: filegen.inrange(c['stn'], b))
    if rng.random() < .4:
        a, m = gen.time_arg(rng, [c['dt'] for c in cells])
        kw['date_time'] = a
        preds.append(lambda c, m=m: c['dt'] in m)
    return kw, (lambda c: all(p(c) for p in preds))


def one(rng, log, tmp):
    import gempakio as g
    d, cells = filegen.sounding(rng)
    f = g.GempakSounding(tmp.put(R.build(d, rng.choice('<>'))))
    inv = [(x.DTNO, x.SNDNO, x.DATTIM, x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY)
           for x in f.sninfo()]
    want = [(c['row'], c['col'], c['dt'], c['stn']['id'], c['stn']['num'], c['stn']['lat'],
             c['stn']['lon'], c['stn']['elv'], c['stn']['st'], c['stn']['co']) for c in cells]
    if inv != want:
        raise Fail(f'inventory {inv[:4]}, stored {want[:4]}', str(cells)[:3000])
    for _ in range(6):
        kw, pred = ask(rng, cells)
        want = [c for c in cells if pred(c)]
        case = {'entries': str(cells)[:3500], 'filters': str(kw)}
        with limit(30, 'snxarray', case):
            try:
                got = f.snxarray(**kw)
            except KeyError:
                got = None
        if not want:
            if got is not None:
                raise Fail(f'{len(got)} soundings returned, none match', case)
            log.case((str(kw), 'none'))
            continue
        if got is None:
            raise Fail(f'no sounding returned, {len(want)} match', case)
        if len(got) != len(want):
            raise Fail(f'{len(got)} soundings returned, {len(want)} match', case)
        for c, ds in zip(want, got, strict=True):
            s, a = c['stn'], ds.attrs
            m = (a['station_id'], a['station_number'], a['lat'], a['lon'], a['elevation'],
                 a['state'], a['country'])
            if m != (s['id'], s['num'], s['lat'], s['lon'], s['elv'], s['st'], s['co']) or \
                    ds.coords['time'].values[0] != np.datetime64(c['dt'], 'ns'):
                raise Fail(f'{m} {ds.coords["time"].values} returned where {s} {c["dt"]} matches',
                           case)
            for p, v in c['values'].items():
                w = np.array([np.nan if x == -9999.0 and p != 'pres' else x for x in v])
                gv = np.asarray(ds[p].values, dtype=float).reshape(-1)
                if gv.shape != w.shape or not np.allclose(gv, w, rtol=1e-6, atol=1e-4,
                                                          equal_nan=True):
                    raise Fail(f'{p} of {s["id"]} {c["dt"]}: {gv.tolist()}, stored {v}', case)
        log.case(str(kw) + str(cells)[:100], sample=str(kw))


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)


def boxes(rng, log):
    """The bounding box filter alone."""
    from gempakio.decode.gempak import _bbox_filter
    v = [-180, -90.5, -10, 0, 0.01, 10, 45.25, 90, 180]
    for _ in range(4000):
        lon, lat = rng.choice(v), rng.choice(v)
        b = (rng.choice(v), rng.choice(v), rng.choice(v), rng.choice(v))
        if bool(_bbox_filter(lat, lon, b)) != (b[0] <= lon <= b[1] and b[2] <= lat <= b[3]):
            raise Fail(f'lat {lat} lon {lon} in {b}: {_bbox_filter(lat, lon, b)}',
                       {'lat': lat, 'lon': lon, 'box': b})
        log.case((lat, lon, b))


MONITORS = ['monitor', 'boxes']
