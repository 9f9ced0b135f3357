"""C21: merged soundings are consistent and contain the data of their parts."""
import datetime
import math

import numpy as np

from contracts import filling, merging
from vp import filegen, gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakSounding._merge_sounding',
             'gempakio.gemcalc.interp_logp_pressure']
TRUSTED = ['interp_moist_height, interp_logp_height and interp_missing_data by what C20 proves of '
           'them (only missing values change, the number of levels never)',
           'bisect_left, list methods and np.isclose (any answer) by their documented meaning',
           'log and exp: uninterpreted, strictly increasing, exp(log x) = x, log 1 = 0']
ASSUMPTIONS = [
    'floating point treated as real arithmetic; the missing value is the least of all values '
    '(below -3000)',
    'pressures lie between 0 and 2000 hPa (winds given by pressure may have them negative), fall '
    'in the mandatory parts from the first level above the surface on, and lie lower in TTCC than '
    'in TTAA',
    'the two mandatory parts have the six columns PRES, TEMP, DWPT, DRCT, SPED, HGHT',
    'the segments of _merge_sounding run from any sounding of the shape the segments before leave '
    '(cuts between statements, found anew on every run)']


def proofs(tier):
    names = merging.titles()
    out = [Task('merge: ' + t, lambda dl, t=t: merging.run(t, dl), functions=FUNCTIONS,
                timeout=600) for t in names]
    return out + [Task(t, lambda dl, t=t: filling.run(t, filling.ORDER[t], dl),
                       functions=FUNCTIONS, timeout=600) for t in filling.ORDER]


MONITOR_SECONDS = 12
M = -9999.0
SIX = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED']
ORDER = ['TTAA', 'PPAA', 'TRPA', 'MXWA', 'TTBB', 'PPBB', 'TTCC', 'PPCC', 'TRPC', 'MXWC', 'TTDD',
         'PPDD']


class Profile:
    def __init__(self, rng):
        self.sp = round(rng.choice([rng.uniform(960, 1040), rng.uniform(700, 1059), 1000.0,
                                    925.0, 850.0]), 1)
        self.z0 = float(rng.randint(3, 300)) if self.sp > 940 else float(rng.randint(500, 3000))
        self.t0 = rng.uniform(-30, 35)
        self.lapse = rng.uniform(3, 8)

    def z(self, p):
        return round(self.z0 + 7600 * math.log(self.sp / p))

    def t(self, p):
        return round(max(-85.0, self.t0 - self.lapse * (self.z(p) - self.z0) / 1000), 1)


def hole(rng, v, p):
    return M if rng.random() < p else v


def levels(rng, lo, hi, n, avoid=()):
    """n pressures in (lo, hi], to the tenth, decreasing."""
    out = set()
    for _ in range(n):
        out.add(rng.randint(int(lo * 10) + 1, int(hi * 10)) / 10)
    return sorted(out - set(avoid), reverse=True)


def parts(rng):
    f = Profile(rng)
    miss = rng.choice([0, 0, .1, .4])
    use = {n for n in ORDER if rng.random() < rng.choice([.5, .8])}
    if rng.random() < .85:
        use.add('TTAA')
    if rng.random() < .03:
        use = set()
    out = {}

    def temp(ps, off, hg=False):
        d = {'PRES': list(ps)}
        d['TEMP'] = [hole(rng, round(f.t(p) + off, 1), miss) for p in ps]
        d['DWPT'] = [hole(rng, round(f.t(p) + off - rng.randint(0, 200) / 10, 1), miss)
                     for p in ps]
        if hg:
            d['HGHT'] = [hole(rng, float(f.z(p)), miss) for p in ps]
        return d

    def wind(ps):
        d = {'DRCT': [], 'SPED': []}
        for _ in ps:
            g = rng.random() < miss
            d['DRCT'].append(M if g else float(rng.randint(0, 72) * 5))
            d['SPED'].append(M if g or rng.random() < miss / 4 else float(rng.randint(0, 120)))
        return d

    man = [f.sp, *filegen.MAN[:rng.choice([0, 1, 3, 11, 11, 11])]]
    if 'TTAA' in use:
        a = {**temp(man, 0.0, True), **wind(man)}
        k = rng.random()
        if k < .1:
            a['PRES'][0] = M
        elif k < .15:
            a['TEMP'][0] = M
        for i in range(1, len(man)):
            if man[i] > f.sp:       # below the ground: no temperature
                a['TEMP'][i] = a['DWPT'][i] = a['DRCT'][i] = a['SPED'][i] = M
        a['HGHT'][0] = f.z0
        out['TTAA'] = {n: a[n] for n in ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']}
    if 'PPAA' in use:
        ps = [p for p in man[1:] if rng.random() < .7] or [850.0]
        out['PPAA'] = {'PRES': ps, **wind(ps)}
    if 'TTCC' in use:
        ps = [p for p in filegen.ABV if rng.random() < .9]
        if ps:
            out['TTCC'] = {**temp(ps, 0.0), **wind(ps), 'HGHT': [hole(rng, float(f.z(p)), miss)
                                                                for p in ps]}
    if 'PPCC' in use:
        ps = [p for p in filegen.ABV if rng.random() < .7] or [50.0]
        out['PPCC'] = {'PRES': ps, **wind(ps)}
    # the significant levels start with the surface where they have to provide it
    nosfc = 'TTAA' not in out or M in (out['TTAA']['PRES'][0], out['TTAA']['TEMP'][0])
    sig_hi = f.sp
    extra = rng.choice([0, .3]) and rng.choice(filegen.MAN)

    def some(lo, hi, n):
        ps = levels(rng, lo, hi, n)
        if extra and lo < extra <= hi and rng.random() < .5:
            ps = sorted({*ps, extra}, reverse=True)
        return ps
    for n, lo, hi, k in (('TRPA', 101, 500, 2), ('TRPC', 5, 99, 2)):
        if n in use:
            ps = some(lo, min(hi, f.sp), rng.randint(1, k))
            out[n] = {**temp(ps, .3), **wind(ps)}
    for n, lo, hi in (('MXWA', 101, 500), ('MXWC', 5, 99)):
        if n in use:
            ps = some(lo, min(hi, f.sp), rng.randint(1, 2))
            out[n] = {'PRES': ps, **wind(ps)}
    for n, lo, hi in (('TTBB', 101, sig_hi), ('TTDD', 5, 99)):
        if n in use:
            ps = some(lo, hi, rng.choice([1, 2, rng.randint(1, 15)]))
            if n == 'TTBB' and (nosfc or rng.random() < .7):
                ps = sorted({*ps, f.sp}, reverse=True)
            low = levels(rng, f.sp, f.sp + 60, rng.choice([1, 2])) if n == 'TTBB' \
                and rng.random() < .2 else []
            out[n] = temp(low + ps, .6)
            for k in range(len(low)):       # below the ground
                if rng.random() < .6:
                    out[n]['TEMP'][k] = out[n]['DWPT'][k] = M
    byz = rng.random() < .6
    neg = rng.random() < .5
    for n, lo, hi in (('PPBB', 101, sig_hi), ('PPDD', 5, 99)):
        if n in use:
            ps = some(lo, hi, rng.choice([1, 2, rng.randint(1, 12)]))
            if n == 'PPBB' and (nosfc or rng.random() < .6):
                ps = sorted({*ps, f.sp}, reverse=True)
            w = wind(ps)
            if byz:
                zs = [float(f.z(p)) for p in ps]
                if n == 'PPBB' and ps[0] == f.sp:
                    zs[0] = 0.0
                out[n] = {'HGHT': zs, **w}
            elif neg:
                out[n] = {'HGHT': [-p for p in ps], **w}
            else:
                out[n] = {'PRES': [rng.choice([p, p]) for p in ps], **w}
    return f, out, byz


def near(a, b):
    return abs(a - b) < 2e-3


def check(f, src, got, byz, case):
    """What the merged sounding must look like, from the parts alone."""
    if not any(src.values()):
        if got is not None:
            raise Fail('a sounding without data is returned', case)
        return
    if got is None:
        raise Fail('no sounding returned', case)
    n = {k: len(got[k]) for k in SIX}
    if len(set(n.values())) != 1 or not n['PRES']:
        raise Fail(f'lists of different lengths {n}', case)
    case = {**case, 'merged': {k: [float(x) for x in got[k]] for k in SIX}}
    ps = [float(x) for x in got['PRES']]
    sfc = ps[0]
    up = [(i, p) for i, p in enumerate(ps) if i and p != M and (sfc == M or p <= sfc)]
    if up and up[0][1] == sfc:
        raise Fail(f'a second level at the surface pressure {sfc}', case)
    for (_i, a), (_j, b) in zip(up, up[1:]):
        if not a > b:
            raise Fail(f'pressure {b} follows {a}', case)
    ta = src.get('TTAA')
    under = [] if sfc == M else [i for i, p in enumerate(ps) if i and p != M and p > sfc]
    if under != list(range(1, len(under) + 1)) or any(
            not any(near(ps[i], p) for p in (ta['PRES'][1:] if ta else [])) for i in under):
        raise Fail(f'levels {[ps[i] for i in under]} below the ground, surface {sfc}', case)
    if ta and ta['PRES'][0] != M and ta['TEMP'][0] != M:
        if not near(sfc, ta['PRES'][0]):
            raise Fail(f'surface pressure {sfc}, reported {ta["PRES"][0]}', case)
        if got['HGHT'][0] != f.selv:
            raise Fail(f'surface height {got["HGHT"][0]}, elevation {f.selv}', case)

    def find(p):
        # the nearest: a wind by height may get a pressure almost the same
        near_p = [i for i in range(len(ps)) if near(ps[i], p)]
        return min(near_p, key=lambda i: abs(ps[i] - p), default=None)

    # mandatory levels above the surface
    need = []
    for nm in ('TTAA', 'TTCC'):
        d = src.get(nm)
        if d:
            need += [(nm, i, p) for i, p in enumerate(d['PRES'])
                     if not (nm == 'TTAA' and i == 0)
                     and M not in (p, d['TEMP'][i], d['HGHT'][i]) and (sfc == M or p < sfc)]
    tropo = [p for nm in ('TRPA', 'TRPC') for p in src.get(nm, {}).get('PRES', [])]
    for nm, i, p in need:
        d = src[nm]
        k = find(p)
        if k is None:
            raise Fail(f'mandatory level {p} of {nm} is not in the merged sounding', case)
        for q in ('TEMP', 'DWPT'):
            if d[q][i] != M and not near(got[q][k], d[q][i]):
                if q == 'DWPT' and d['TEMP'][i] == M:
                    continue
                raise Fail(f'{q} at mandatory level {p}: {got[q][k]}, reported {d[q][i]}', case)
        if not any(near(p, t) for t in tropo) and not near(got['HGHT'][k], d['HGHT'][i]):
            raise Fail(f'HGHT at mandatory level {p}: {got["HGHT"][k]}, reported '
                       f'{d["HGHT"][i]}', case)
        if M not in (d['DRCT'][i], d['SPED'][i]) and not near(got['DRCT'][k], d['DRCT'][i]):
            raise Fail(f'DRCT at mandatory level {p}: {got["DRCT"][k]}, reported '
                       f'{d["DRCT"][i]}', case)
    # significant, tropopause and maximum wind levels above a known surface
    if sfc != M:
        for nm in ('TRPA', 'TRPC', 'TTBB', 'TTDD', 'MXWA', 'MXWC', 'PPBB', 'PPDD'):
            d = src.get(nm)
            if not d or (nm in ('PPBB', 'PPDD') and byz):
                continue
            if nm == 'MXWA' and len(ps) == 0:
                continue
            pp = d['PRES'] if 'PRES' in d else [abs(x) for x in d['HGHT']]
            for i, p in enumerate(pp):
                ok = (d['TEMP'][i] != M) if nm[:2] in ('TR', 'TT') else M not in (
                    d['DRCT'][i], d['SPED'][i])
                if not ok or p == M or p > sfc:
                    continue
                k = find(p)
                if k is None:
                    raise Fail(f'level {p} of {nm} is not in the merged sounding', case)
                q = 'TEMP' if nm[:2] in ('TR', 'TT') else 'SPED'
                vals = []
                for n2 in ORDER:
                    e = src.get(n2, {})
                    if q not in e:
                        continue
                    e2 = e['PRES'] if 'PRES' in e else [abs(x) for x in e['HGHT']]
                    vals += [e[q][j] for j, p2 in enumerate(e2) if near(abs(p2), p)]
                if not any(near(got[q][k], v) for v in vals):
                    raise Fail(f'{q} at {p}: {got[q][k]}, reported {vals}', case)
    # significant winds given by height, between the lowest and highest known heights
    if byz and sfc != M:
        tops = [ta['HGHT'][i] for nm, i, p in need if nm == 'TTAA'] if ta else []
        known = ta and M not in (ta['PRES'][0], ta['TEMP'][0]) and got['HGHT'][0] != M
        if known and len(tops) >= 2:
            zs = [float(z) for z in got['HGHT']]
            for nm in ('PPBB', 'PPDD'):
                d = src.get(nm)
                hs = d['HGHT'] if d else []
                if any(a >= b for a, b in zip(hs, hs[1:])):
                    continue
                for i, z in enumerate(hs):
                    if (z <= max(0, zs[0]) + 2 or z >= min(max(tops), max(zs)) - 2
                            or M in (d['DRCT'][i], d['SPED'][i])):
                        continue
                    if M in zs[1:]:
                        continue
                    if not any(abs(z - x) < 1.01 for x in zs):
                        raise Fail(f'wind at {z} m of {nm} is not in the merged sounding', case)
    # mandatory levels below the ground follow the surface
    if ta and sfc != M and ta['PRES'][0] == sfc:
        for i, p in enumerate(ta['PRES'][1:], 1):
            if p > sfc and not any(near(x, p) for x in ps):
                raise Fail(f'mandatory level {p} below the ground is missing', case)


def one(rng, log, direct=True, tmp=None):
    from gempakio.decode.gempak import GempakSounding
    f, src, byz = parts(rng)
    f.selv = f.z0
    case = {'parts': {k: {a: list(b) for a, b in v.items()} for k, v in src.items()},
            'elevation': f.selv}
    meta = {'STID': 'KXXX', 'STNM': 72000, 'SLAT': 40.0, 'SLON': -90.0, 'SELV': f.selv,
            'STAT': 'OK', 'COUN': 'US', 'DATE': datetime.date(2020, 1, 2),
            'TIME': datetime.time(12)}
    if direct:
        me = GempakSounding.__new__(GempakSounding)

        class L:
            missing_float = M
        me.dm_label = L()
        arg = {**meta, **{k: {a: np.array(b) for a, b in v.items()} for k, v in src.items()}}
        with limit(15, '_merge_sounding', case):
            got = me._merge_sounding(arg)
        check(f, src, got, byz, case)
        if got is not None and any(got[k] != meta[k] for k in meta):
            raise Fail('station metadata changed', case)
        log.case(str(case)[:300])
        return
    # through a file: only the parts present have data
    names = [n for n in ORDER if n in src]
    if 'TTAA' not in names:
        return      # the inventory is made from the first part
    plist, data = [], {}
    for k, n in enumerate(['TTAA'] + [x for x in names if x != 'TTAA']):
        cols = list(src[n])
        plist.append(dict(name=n, header=1, dtype=1, params=[(c, 0, 0, 0) for c in cols]))
        recs = list(zip(*src[n].values(), strict=True))
        data[0, 0, k] = [R.I(1200)] + [R.F(v) for r in recs for v in r]
    s = {**gen.station(rng), 'elv': int(f.z0)}
    t = gen.times(rng, 1)[0]
    d = dict(file_type=2, data_source=4, row_keys=['DATE', 'TIME'],
             rows=[[R.I(R.date_word(t)), R.I(R.time_word(t))]], col_keys=R.STN[:8],
             cols=[R.stn_words(s, R.STN[:8])], parts=plist, data=data)
    case['elevation'] = f.selv
    with limit(20, 'snxarray', case):
        o = GempakSounding(tmp.put(R.build(d, rng.choice('<>'))))
        got = o._unpack_unmerged([(0, 0)])[0]
        ds = o.snxarray()[0]
    check(f, src, got, byz, case)
    if not np.allclose(sorted(float(x) for x in got['PRES']),
                       sorted(ds['pres'].values.astype(float))):
        raise Fail('levels of the data set are not those of the merged sounding', case)
    if ds.attrs['station_id'] != s['id']:
        raise Fail('station', case)
    log.case(('file', str(case)[:200]))


def merged(rng, log):
    while log.more():
        one(rng, log)


def files(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, False, tmp)


MONITORS = ['merged', 'files']
