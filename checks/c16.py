"""C16: nearest-time lookup returns a closest report for every selected station."""
import datetime

from contracts import nearest
from vp import filegen, gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakSurface.nearest_time',
             'gempakio.decode.gempak._bbox_filter']
TRUSTED = ['GempakSurface.sfjson: the reports of the one station asked for, KeyError when there are none (C15)', 'datetime.strptime reads the date-time a text names', 'a set holds one of each of its elements']
ASSUMPTIONS = ['names in the inventory are upper case', 'every station of the inventory has a report to return', 'a station number asked for alone is not zero; stations asked for are distinct']


def proofs(tier):
    return [Task(n, lambda dl, n=n: nearest.run(n, dl), functions=FUNCTIONS)
            for n in nearest.PARTS]



MONITOR_SECONDS = 14


def one(rng, log, tmp):
    import gempakio as g
    d, layout, cells = filegen.surface(rng, text=rng.random() < .25)
    f = g.GempakSurface(tmp.put(R.build(d, rng.choice('<>'))))
    stn = [c['stn'] for c in cells]
    for _ in range(6):
        special = rng.random() < .5
        c0 = rng.choice(cells)
        base = c0['dt'] + datetime.timedelta(minutes=rng.choice([0, 1, -1, 30, -90, 100000,
                                                               rng.randint(-3000, 3000)]))
        arg = base.strftime('%Y%m%d%H%M') if rng.random() < .5 else base
        flt = rng.choice(['station_id', 'station_number', 'state', 'country', 'bbox'])
        by = 'id'
        if flt == 'station_id':
            vals = [rng.choice(stn)['id'] for _ in range(rng.randint(1, 3))]
            vals = list(dict.fromkeys(vals))
            val = gen.case_mix(rng, vals[0]) if len(vals) == 1 and rng.random() < .5 else \
                [gen.case_mix(rng, v) for v in vals]
            want = vals
        elif flt == 'station_number':
            vals = list(dict.fromkeys(rng.choice(stn)['num'] for _ in range(rng.randint(1, 3))))
            if 0 in vals:
                continue
            val = vals[0] if len(vals) == 1 and rng.random() < .5 else vals
            want, by = vals, 'num'
        elif flt == 'bbox':
            val = filegen.box_arg(rng, stn)
            want = list(dict.fromkeys(s['id'] for s in stn if filegen.inrange(s, val)))
        else:
            key = {'state': 'st', 'country': 'co'}[flt]
            vals = [v for v in dict.fromkeys(rng.choice(stn)[key]
                                             for _ in range(rng.randint(1, 2)))]
            if not any(vals):
                continue
            val = gen.case_mix(rng, vals[0]) if len(vals) == 1 else \
                [gen.case_mix(rng, v) for v in vals]
            want = list(dict.fromkeys(s['id'] for s in stn if s[key] in vals))
        reps = {}
        for c in cells:
            # the reports of a station: everything but specials, which only count on request
            k = c['stn'][by]
            n = int(bool(c['text'])) + int(bool(c['spcl']) and special) \
                if c['text'] or c['spcl'] else 1
            if n:
                reps.setdefault(k, []).append(c)
        if any(w not in reps for w in want):
            continue
        case = {'layout': layout, 'entries': str(cells)[:3500], 'time': str(arg), flt: str(val),
                'include_special': special}
        with limit(30, 'nearest_time', case):
            got = f.nearest_time(arg, include_special=special, **{flt: val})
        key = 'station_id' if by == 'id' else 'station_number'
        ids = [o['properties'][key] for o in got]
        if sorted(map(str, ids)) != sorted(map(str, want)):
            raise Fail(f'reports for {ids}, selected stations {want}', case)
        for o in got:
            p = o['properties']
            mine = reps[p[key]]
            best = min(abs(c['dt'] - base) for c in mine)
            if abs(p['date_time'] - base) != best:
                raise Fail(f'{p[key]}: report at {p["date_time"]}, closest is {best} away', case)
            hit = [c for c in mine if c['dt'] == p['date_time']
                   and c['stn']['num'] == p['station_number'] and c['stn']['id'] == p['station_id']]
            if not any(all(abs(float(o['values'][k]) - v) < 1e-3 + 1e-6 * abs(v)
                           for k, v in c['values'].items() if k in o['values'])
                       and (set(c['values']) <= set(o['values']) or 'spcl' in o['values'])
                       for c in hit):
                raise Fail(f'{p[key]}: no stored report at {p["date_time"]} has values '
                           f'{o["values"]}', case)
        log.case(str(case)[-300:] + str(want), sample=str(case)[-300:])
    for kw in [{}, {'station_id': 'KMSN', 'state': 'WI'}, {'bbox': (0, 1, 0, 1), 'country': 'US'},
               {'station_number': 5, 'station_id': 'KMSN'}]:
        try:
            f.nearest_time(cells[0]['dt'], **kw)
        except (ValueError, NotImplementedError):
            continue
        raise Fail(f'filters {kw} accepted', str(kw))


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
