"""C15: surface selection returns exactly the matching reports."""
from checks.c14 import ask, boxes
from contracts import station_select
from vp import filegen, gemref as R
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakSurface.sfjson',
             'gempakio.decode.gempak._bbox_filter']
BOUNDED = ['how a record is presented (sfjson record ...): for the sets of parameter names listed in '
           'contracts/station_select.py, any values']
TRUSTED = ['sorted() of the inventory lists it in inventory order', 'datetime.strptime reads the date-time a text names']
ASSUMPTIONS = ['names in the inventory are upper case', 'requested lists hold no None', 'filters are given as any subset of lists, and each in each of its forms with all others absent '
 'or given', 'the row and column of an inventory entry are those of its record (built so by __init__)']


def proofs(tier):
    return [Task(n, lambda dl, n=n: station_select.run(n, dl), functions=FUNCTIONS, timeout=800)
            for n in station_select.SURFACE] + [
        Task(n, lambda dl, n=n: station_select.run(n, dl), functions=FUNCTIONS,
             bounded='sets of parameter names')
        for n in station_select.SURFACE_RECORD]



MONITOR_SECONDS = 14


def stn(s):
    return (s['id'], s['num'], s['lat'], s['lon'], s['elv'], s['st'], s['co'])


def one(rng, log, tmp):
    import gempakio as g
    d, layout, cells = filegen.surface(rng, text=rng.random() < .3)
    f = g.GempakSurface(tmp.put(R.build(d, rng.choice('<>'))))
    if f.surface_type != layout:
        raise Fail(f'{layout} layout read as {f.surface_type}', str(d)[:2000])
    inv = [(x.ROW, x.COL, x.DATTIM, x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY)
           for x in f.sfinfo()]
    want = [(c['row'], c['col'], c['dt'], *stn(c['stn'])) for c in cells]
    if inv != want:
        raise Fail(f'inventory {inv[:4]}, stored {want[:4]}',
                   {'layout': layout, 'entries': str(cells)[:3000]})
    for _ in range(6):
        kw, pred = ask(rng, cells)
        want = [c for c in cells if pred(c)]
        if 'station_number' in kw and rng.random() < .3 and not isinstance(kw['station_number'],
                                                                           int):
            kw['station_number'] = [str(x) for x in kw['station_number']]
        special = rng.random() < .5
        case = {'layout': layout, 'entries': str(cells)[:3500], 'filters': str(kw),
                'include_special': special}
        with limit(30, 'sfjson', case):
            try:
                got = f.sfjson(**kw, include_special=special)
            except KeyError:
                got = None
        if not want:
            if got is not None:
                raise Fail(f'{len(got)} reports returned, none match', case)
            log.case((str(kw), 'none'))
            continue
        if got is None:
            raise Fail(f'no report returned, {len(want)} match', case)
        exp = []
        for c in want:
            st, pri = stn(c['stn']), c['stn'].get('pri', 0)
            if c['text']:
                exp.append((c['dt'], st, pri, {**c['values'], 'text': c['text']}))
            if c['spcl'] and special:
                exp.append((c['dt'], st, pri, {**({} if c['text'] else c['values']),
                                               'spcl': c['spcl']}))
            if not c['text'] and not c['spcl']:
                exp.append((c['dt'], st, pri, c['values']))
        if len(got) != len(exp):
            raise Fail(f'{len(got)} reports returned, {len(exp)} match', case)
        for e, o in zip(exp, got, strict=True):
            p = o['properties']
            m = (p['date_time'], (p['station_id'], p['station_number'], p['latitude'],
                                  p['longitude'], p['elevation'], p['state'], p['country']),
                 p['priority'])
            if m != e[:3]:
                raise Fail(f'{m} returned where {e[:3]} matches', case)
            if set(o['values']) != set(e[3]):
                raise Fail(f'values {sorted(o["values"])}, stored {sorted(e[3])}', case)
            for k, v in e[3].items():
                gv = o['values'][k]
                if (gv != v) if isinstance(v, str) else abs(float(gv) - v) > 1e-4 + 1e-6 * abs(v):
                    raise Fail(f'{k} of {m}: {gv}, stored {v}', case)
        log.case(str(kw) + str(cells)[:100], sample=str(kw))


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)


MONITORS = ['monitor', 'boxes']
__all__ = ['boxes']
