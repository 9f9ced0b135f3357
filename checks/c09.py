"""C09: surface files round-trip every station report."""
import numpy as np

from checks.c08 import coord, info, meta, time_arg
from contracts import adding, file_layout, read_file, round_trip, written
from vp import gemref as R, gen
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
E = 'gempakio.encode.gempak.'
FUNCTIONS = [G + n for n in ('GempakFile.__init__', 'GempakSurface.__init__', 'GempakSurface._unpack_standard', 'GempakFile._make_date', 'GempakFile._make_time')] + [E + n for n in ('SurfaceFile._write_row_headers', 'SurfaceFile._write_column_headers', 'SurfaceFile._write_data', 'DataManagementFile._write_label', 'DataManagementFile._write_parts', 'DataManagementFile._write_row_keys', 'DataManagementFile._write_column_keys', 'DataManagementFile.to_gempak')]
FUNCTIONS += [E + n for n in ('SurfaceFile.add_station', 'SurfaceFile._validate_length')]
TRUSTED = ['IOBuffer: read_struct, read_int, read_binary, read_ascii, jump_to, set_mark (proved, C29)', 'the data of a packed part: _unpack_real (proved, C04); _merge_sounding, _process_report_text (C21, C22)', 'a name is stripped bytes, decoded; datetime.combine keeps its date and time', 'the entries selected: C15', 'struct keeps a 32-bit real, NaN included']
ASSUMPTIONS = ['the version word is 1 and every row and column header is in use (the flag word is 9999)', 'keys as GEMPAK lays files out: two or one row keys, up to three column keys for the base reader; the keys of grid, sounding, standard, ship and climate files for the others; one or two parts; any number of rows, columns, parameters, levels and entries', 'the blocks of the entries asked for hold the words their parts need; text parts have one parameter', 'texts of at most four characters per word without blanks at their ends']


def proofs(tier):
    mods = ((file_layout, lambda n: n == 'SurfaceFile data' or n == 'SurfaceFile label fields'
             or n == 'SurfaceFile to_gempak'),
            (written, lambda n: n.startswith('SurfaceFile')),
            (round_trip, lambda n: n.startswith('SurfaceFile')),
            (read_file, lambda n: n in READ),
            (adding, lambda n: n.startswith('SurfaceFile') or n in ('one number each',)))
    return [Task(n, lambda dl, m=m, n=n, b=b: m.run(n, b, dl), functions=FUNCTIONS)
            for m, want in mods for n, b in m.BODIES.items() if want(n)]


READ = ('GempakFile 0', 'GempakFile 1', 'standard inventory', 'standard data of 1 part')


MONITOR_SECONDS = 14
NAMES = ['PMSL', 'ALTI', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'VSBY', 'WNUM', 'CHC1', 'P01I']


def one(rng, log, tmp):
    import gempakio as g
    pars = rng.sample(NAMES, rng.randint(1, len(NAMES)))
    f = g.SurfaceFile([gen.case_mix(rng, p) for p in pars])
    want, hist, used = {}, [], []
    for _ in range(rng.choice([1, 2, 3, 10])):
        if used and rng.random() < .4:
            s, sinfo, lat, lon = rng.choice(used)
        else:
            s = gen.station(rng, long_id=True)
            sinfo, s = info(rng, s)
            if rng.random() < .8:
                sinfo['priority'] = s['pri']
            else:
                s['pri'] = 0
            if rng.random() < .1:
                sinfo, s = None, {'id': '', 'num': -9999, 'elv': -9999, 'st': '', 'co': '',
                                  'lat': s['lat'], 'lon': s['lon'], 'pri': 0}
            lat, lon = coord(rng, s['lat'], 90), coord(rng, s['lon'], 180)
            used.append((s, sinfo, lat, lon))
        ta, dt = time_arg(rng, False)
        if want and rng.random() < .3:
            ta = dt = rng.choice(list(want))[0]
        vals = {}
        for p in rng.sample(pars, len(pars)):
            v = rng.choice([rng.uniform(-50, 1050), float('nan'), 0.0, rng.randint(0, 360), -1.5,
                            np.float32(rng.random()), np.float64(1e5), np.int64(7)])
            vals[p] = v
        k = (dt, (s['id'].upper(), s['num'], lat, lon, s['elv'], s['st'].upper(), s['co'].upper()),
             s['pri'])
        hist.append({'data': {a: float(b) for a, b in vals.items()}, 'lat': lat, 'lon': lon,
                     'time': str(ta), 'info': sinfo})
        f.add_station({gen.case_mix(rng, a): b for a, b in vals.items()}, lat, lon, ta, sinfo)
        want[k] = vals
    case = {'parameters': pars, 'added': str(hist)[:4000]}

    def show(v):
        return -9999.0 if v != v else float(np.float32(v))

    exp = sorted((dt, meta((k[0][:8], *k[1:])), pri,
                  tuple(sorted((a.lower(), show(float(b))) for a, b in v.items())))
                 for (dt, k, pri), v in want.items())
    with limit(60, 'write and read', case):
        path, _b = tmp.save(f)
        r = g.GempakSurface(path)
        inv = sorted((x.DATTIM, (x.ID, x.NUMBER, x.LAT, x.LON, x.ELEV, x.STATE, x.COUNTRY))
                     for x in r.sfinfo())
        out = r.sfjson()
    if inv != [(e[0], e[1]) for e in exp]:
        raise Fail(f'inventory read back {inv[:5]}, added {[(e[0], e[1]) for e in exp][:5]}', case)
    got = sorted((o['properties']['date_time'],
                  tuple(o['properties'][n] for n in ('station_id', 'station_number', 'latitude',
                                                     'longitude', 'elevation', 'state', 'country')),
                  o['properties']['priority'],
                  tuple(sorted((a, float(b)) for a, b in o['values'].items()))) for o in out)
    if got != exp:
        bad = [(x, y) for x, y in zip(got, exp) if x != y]
        raise Fail(f'read back {bad[0][0] if bad else len(got)}, added '
                   f'{bad[0][1] if bad else len(exp)}', case)
    log.case(str(case)[:500], sample=str(case)[:200])


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
