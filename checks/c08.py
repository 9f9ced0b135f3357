"""C08: sounding files round-trip every sounding."""
import datetime

import numpy as np

from contracts import adding, file_layout, read_file, round_trip, written
from vp import gemref as R, gen, writers as W
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
E = 'gempakio.encode.gempak.'
FUNCTIONS = [G + n for n in ('GempakFile.__init__', 'GempakSounding.__init__', 'GempakSounding._unpack_merged', 'GempakFile._make_date', 'GempakFile._make_time')] + [E + n for n in ('SoundingFile._write_row_headers', 'SoundingFile._write_column_headers', 'SoundingFile._write_data', 'DataManagementFile._write_label', 'DataManagementFile._write_parts', 'DataManagementFile._write_row_keys', 'DataManagementFile._write_column_keys', 'DataManagementFile.to_gempak')]
FUNCTIONS += [E + n for n in ('SoundingFile.add_sounding', 'SoundingFile._validate_length', 'DataManagementFile._replace_nan')]
TRUSTED = ['IOBuffer: read_struct, read_int, read_binary, read_ascii, jump_to, set_mark (proved, C29)', 'the data of a packed part: _unpack_real (proved, C04); _merge_sounding, _process_report_text (C21, C22)', 'a name is stripped bytes, decoded; datetime.combine keeps its date and time', 'the entries selected: C14', 'struct keeps a 32-bit real, NaN included']
ASSUMPTIONS = ['the version word is 1 and every row and column header is in use (the flag word is 9999)', 'keys as GEMPAK lays files out: two or one row keys, up to three column keys for the base reader; the keys of grid, sounding, standard, ship and climate files for the others; one or two parts; any number of rows, columns, parameters, levels and entries', 'the blocks of the entries asked for hold the words their parts need; text parts have one parameter', 'texts of at most four characters per word without blanks at their ends']


def proofs(tier):
    mods = ((file_layout, lambda n: n == 'SoundingFile data' or n == 'SoundingFile label fields'
             or n == 'SoundingFile to_gempak'),
            (written, lambda n: n.startswith('SoundingFile')),
            (round_trip, lambda n: n.startswith('SoundingFile')),
            (read_file, lambda n: n in READ),
            (adding, lambda n: n.startswith('SoundingFile') or n in ('equal lengths', 'missing values replaced')))
    return [Task(n, lambda dl, m=m, n=n, b=b: m.run(n, b, dl), functions=FUNCTIONS)
            for m, want in mods for n, b in m.BODIES.items() if want(n)]


READ = ('GempakFile 0', 'GempakFile 1', 'GempakSounding inventory', 'merged data of 1 part')


MONITOR_SECONDS = 16
NAMES = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT', 'OMEG', 'UWND']


def info(rng, s):
    """station_info as the caller may give it."""
    d = {'station_id': gen.case_mix(rng, s['id']), 'station_number': s['num'],
         'elevation': s['elv'], 'state': gen.case_mix(rng, s['st']),
         'country': gen.case_mix(rng, s['co'])}
    if rng.random() < .2:
        d['station_number'] = str(d['station_number'])
    if rng.random() < .2:
        d['elevation'] = float(d['elevation'])
    for k in list(d):
        if rng.random() < .05:
            del d[k]
            s = {**s, {'station_id': 'id', 'station_number': 'num', 'elevation': 'elv',
                       'state': 'st', 'country': 'co'}[k]:
                 -9999 if k in ('station_number', 'elevation') else ''}
    return d, s


def coord(rng, v, hi):
    """A coordinate argument near v: whole hundredths, or with more digits (never at a tie)."""
    k = rng.random()
    if k < .3:
        return int(v)
    if k < .7:
        return v
    w = v + rng.choice([-.004, .003, .0049, -.0049])
    return max(-hi, min(hi, w))


def time_arg(rng, allow_f):
    d = R.rnd_dt(rng)
    k = rng.random()
    if k < .4:
        return d, d
    if allow_f and k < .6:
        h = rng.choice([0, 6, 12, 120, rng.randint(0, 240)])
        return d.strftime('%Y%m%d%H%M') + rng.choice('Ff') + str(h), d + datetime.timedelta(hours=h)
    return d.strftime('%Y%m%d%H%M'), d


def ident(s, lat, lon):
    return (s['id'], s['num'], lat, lon, s['elv'], s['st'], s['co'])


def meta(k):
    sid, num, lat, lon, elv, st, co = k
    return (sid.upper(), num, round(lat * 100) / 100, round(lon * 100) / 100, elv, st.upper(),
            co.upper())


def one(rng, log, tmp):
    import gempakio as g
    n = rng.randint(1, len(NAMES))
    pars = rng.sample(NAMES, n)
    if not {'PRES', 'HGHT'} & set(pars):
        pars[0] = rng.choice(['PRES', 'HGHT'])
    vc = 'PRES' if 'PRES' in pars else 'HGHT'
    f = g.SoundingFile([gen.case_mix(rng, p) for p in pars])
    want = {}
    hist = []
    used = []
    for _ in range(rng.choice([1, 2, 3, 8])):
        if used and rng.random() < .4:
            s, sinfo, lat, lon = rng.choice(used)
            if rng.random() < .2:
                lat = coord(rng, s['lat'], 90)
        else:
            s = gen.station(rng, long_id=True)
            sinfo, s = info(rng, s)
            if rng.random() < .1:
                sinfo, s = None, {'id': '', 'num': -9999, 'elv': -9999, 'st': '', 'co': '', 'lat':
                                  s['lat'], 'lon': s['lon']}
            lat, lon = coord(rng, s['lat'], 90), coord(rng, s['lon'], 180)
            used.append((s, sinfo, lat, lon))
        ta, dt = time_arg(rng, True)
        if want and rng.random() < .3:
            dt = rng.choice(list(want))[0]
            ta = dt
        nl = rng.choice([1, 2, 7, rng.randint(1, 30)])
        data = {}
        for p in rng.sample(pars, n):
            if p == vc:
                v = [round(1050 - 3.25 * j - rng.random(), 2) for j in range(nl)]
                if vc == 'HGHT':
                    v = v[::-1]
            else:
                v = gen.values(rng, nl, float('nan'))
            form = rng.choice(['f8', 'f4', 'list', 'int'])
            if form == 'list':
                data[p] = list(v)
            elif form == 'int' and not any(x != x for x in v) and p != vc:
                data[p] = np.array([int(x) for x in v])
            else:
                data[p] = np.array(v, dtype='f4' if form == 'f4' else 'f8')
        # two columns whose metadata differ only below the stored precision stay two soundings
        k = (dt, ident({**s, 'id': s['id'].upper(), 'st': s['st'].upper(), 'co': s['co'].upper()},
                       lat, lon))
        hist.append({'data': {a: np.asarray(b).tolist() for a, b in data.items()}, 'lat': lat,
                     'lon': lon, 'time': str(ta), 'info': sinfo})
        exp = {a: np.array(b, dtype='f8') for a, b in data.items()}
        f.add_sounding({gen.case_mix(rng, a): b for a, b in data.items()}, lat, lon, ta, sinfo)
        want[k] = exp
    case = {'parameters': pars, 'added': str(hist)[:4000]}
    exp = sorted(((dt, meta((k[0][:4], *k[1:])), d) for (dt, k), d in want.items()),
                 key=lambda x: (x[0], x[1]))
    with limit(60, 'write and read', case):
        path, _b = tmp.save(f)
        r = g.GempakSounding(path)
        inv = r.sninfo()
        got = sorted((x.DATTIM, (x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY))
                     for x in inv)
        if got != [(a, b) for a, b, _ in exp]:
            raise Fail(f'soundings read back {got[:6]}, added {[(a, b) for a, b, _ in exp][:6]}',
                       case)
        sets = r.snxarray()
    if len(sets) != len(exp):
        raise Fail(f'{len(sets)} soundings returned of {len(exp)}', case)
    back = []
    for x, ds in zip(inv, sets, strict=True):
        at = ds.attrs
        m = (at['station_id'], at['station_number'], at['lat'], at['lon'], at['elevation'],
             at['state'], at['country'])
        t = ds.coords['time'].values
        if m != (x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY) or len(t) != 1 or \
                t[0] != np.datetime64(x.DATTIM, 'ns'):
            raise Fail(f'sounding of {x} returned as {m} {t}', case)
        rec = {p: np.asarray(ds[p.lower()].values, dtype=float).reshape(-1) for p in pars}
        back.append((x.DATTIM, m, rec))

    def rows(rec):
        o = np.argsort(-rec[vc] if vc == 'PRES' else rec[vc], kind='stable')
        return tuple(tuple('nan' if v != v or np.float32(v) == -9999 else float(np.float32(v))
                           for v in rec[p][o]) for p in pars)

    a = sorted((t, m, rows(rec)) for t, m, rec in back) if False else \
        sorted([(t, m, repr(rows(rec))) for t, m, rec in back])
    b = sorted([(t, m, repr(rows(rec))) for t, m, rec in exp])
    if a != b:
        bad = [(x, y) for x, y in zip(a, b, strict=True) if x != y][0]
        raise Fail(f'values read back {bad[0]}, added {bad[1]}', case)
    log.case(str(case)[:500], sample=str(case)[:200])


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)


__all__ = ['W', 'monitor']
