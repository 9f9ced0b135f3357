"""C13: grid selection returns exactly the matching grids in file order."""
import datetime
import warnings

import numpy as np

from contracts import grid_select
from vp import gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakGrid.gdxarray',
             'gempakio.common._word_to_position']
TRUSTED = ['sorted() of the inventory lists it in inventory order', 'datetime.strptime reads the date-time a text names', 'numpy: reshape and new axes keep the elements; np.ma.array masks where its mask is true', 'GempakGrid._unpack_grid: the data of the block the buffer stands at (C02, C03)', 'xarray.DataArray holds the data and coordinates it is given']
ASSUMPTIONS = ['names in the inventory are upper case', 'requested lists hold no None', 'filters are given as any subset of lists, and each in each of its forms with all others absent '
 'or given', 'GRIDNO numbers a column header (built so by GempakGrid.__init__)']


def proofs(tier):
    return [Task(n, lambda dl, n=n: grid_select.run(n, dl), functions=FUNCTIONS, timeout=800)
            for n in sorted(grid_select.PARTS, key=lambda n: 'time2' not in n)]



MONITOR_SECONDS = 14
TN = ['analysis', 'forecast', 'guess', 'initial']


def build(rng):
    n = rng.choice([1, 2, 5, 9, rng.randint(1, 14)])
    base = R.rnd_dt(rng, 1975)
    gs, inv = [], []
    tms = [base + datetime.timedelta(hours=6 * k) for k in range(3)]
    for k in range(n):
        tc = rng.choice([0, 0, 1, 1, 2, 3])
        d = rng.choice(tms)
        h = rng.choice([0, 6, 12])
        if tc == 0:
            v1 = datetime.datetime(d.year, d.month, d.day, d.hour, d.minute)
            w1, f1 = R.gdt(0, d), R.gtm(0, d.hour, d.minute)
        else:
            v1 = d + datetime.timedelta(hours=h)
            w1, f1 = R.gdt(tc, d), R.gtm(tc, h, 0)
        w2, f2, v2 = 0, R.gtm(tc, 0, 0), None
        if rng.random() < .4:
            d2 = rng.choice(tms)
            h2 = rng.choice([0, 6, 12])
            if tc == 0:
                v2, w2, f2 = d2, R.gdt(0, d2), R.gtm(0, d2.hour, d2.minute)
            else:
                v2, w2, f2 = d2 + datetime.timedelta(hours=h2), R.gdt(tc, d2), R.gtm(tc, h2, 0)
        vc = rng.choice([0, 1, 1, 2, 3])
        lv1 = rng.choice([0, 500, 700, 850, -1])
        lv2 = rng.choice([-1, -1, 0, 500, 1000])
        pm = rng.choice(['TMPK', 'HGHT', 'UREL', 'P06M', 'LONGNAMEPARM', 'PRES'])
        gs.append(dict(gdt1=w1, gtm1=f1, gdt2=w2, gtm2=f2, lv1=lv1, lv2=lv2, vc=vc, parm=pm,
                       block=R.grib_block(2, 1, 8, [k, 0], 0.0, 1.0, 0)))
        inv.append(dict(no=k, type=TN[tc], t1=v1, t2=v2, parm=pm, l1=lv1 if lv1 >= 0 else None,
                        l2=lv2 if lv2 >= 0 else None, vc=gen.VC[vc]))
    return gs, inv


def forms(rng, v):
    return v if rng.random() < .5 else v


def ask(rng, inv):
    """Filters as a caller gives them, and a predicate with their meaning."""
    kw, preds = {}, []
    some = rng.choice(inv)      # aim at an existing grid most of the time

    def names(attr, absent):
        pool = [x[attr] for x in inv] + [some[attr]] * 3
        a, m = gen.filter_arg(rng, pool, absent)
        return (gen.case_mix(rng, a) if isinstance(a, str) else
                type(a)(gen.case_mix(rng, x) for x in a)), m

    if rng.random() < .5:
        kw['parameter'], m = names('parm', 'ZZZZ')
        preds.append(('parm', m))
    if rng.random() < .3:
        kw['coordinate'], m = names('vc', 'HYBD')
        preds.append(('vc', m))
    if rng.random() < .4:
        pool = [x['l1'] for x in inv if x['l1'] is not None] + [some['l1'] or 0]
        a, m = gen.filter_arg(rng, pool, 123456)
        kw['level'], _ = a, preds.append(('l1', m))
    if rng.random() < .25:
        pool = [x['l2'] for x in inv if x['l2'] is not None]
        a, m = gen.filter_arg(rng, pool, 123456)
        kw['level2'], _ = a, preds.append(('l2', m))
    if rng.random() < .5:
        a, m = gen.time_arg(rng, [x['t1'] for x in inv])
        kw['date_time'], _ = a, preds.append(('t1', m))
    if rng.random() < .25:
        a, m = gen.time_arg(rng, [x['t2'] for x in inv if x['t2'] is not None])
        kw['date_time2'], _ = a, preds.append(('t2', m))
    return kw, (lambda x: all(x[k] in m for k, m in preds))


def one(rng, log, tmp):
    import gempakio as g
    gs, inv = build(rng)
    path = tmp.put(R.build(R.grid_desc(rng, gs, 2, 1, shuffle=True), rng.choice('<>')))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = g.GempakGrid(path)
        info = [(x.GRIDNO, x.TYPE, x.DATTIM1, x.DATTIM2, x.PARM, x.LEVEL1, x.LEVEL2, x.COORD)
                for x in f.gdinfo()]
        if info != [(x['no'], x['type'], x['t1'], x['t2'], x['parm'], x['l1'], x['l2'], x['vc'])
                    for x in inv]:
            raise Fail(f'inventory {info}, stored {inv}', {'grids': str(inv)[:2000]})
        for _ in range(6):
            kw, pred = ask(rng, inv)
            want = [x for x in inv if pred(x)]
            case = {'inventory': str(inv)[:3000], 'filters': str(kw)}
            with limit(30, 'gdxarray', case):
                try:
                    got = f.gdxarray(**kw)
                except KeyError:
                    got = None
            if not want:
                if got is not None:
                    raise Fail(f'{len(got)} grids returned, none match', case)
                log.case((str(kw), 'none'))
                continue
            if got is None:
                raise Fail(f'no grid returned, {len(want)} match', case)
            ids = [int(round(float(np.nan_to_num(d.values.reshape(-1)[0], nan=-1)))) for d in got]
            if ids != [x['no'] for x in want]:
                raise Fail(f'grids {ids} returned, {[x["no"] for x in want]} match', case)
            for x, d in zip(want, got, strict=True):
                vcn = x['vc'].lower()
                lvl = d.coords[vcn].values[0] if vcn in d.coords else 'absent'
                if d.coords['time'].values[0] != np.datetime64(x['t1'], 'ns') or \
                        d.attrs['grid_type'] != x['type'] or \
                        (x['l1'] is not None and lvl != x['l1']):
                    raise Fail(f'grid {x["no"]} returned with {d.coords["time"].values} '
                               f'{d.attrs["grid_type"]} {lvl}', case)
            log.case(str(kw), sample=str(kw))


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
