"""C10: encoded dates, forecast times, levels and coordinates decode as defined."""
import datetime

import numpy as np

from vp import gemref as R, gen, writers as W
from contracts import codings as proved
from vp.api import Fail, Task, limit

D = 'gempakio.decode.gempak.GempakFile.'
E = 'gempakio.encode.gempak.'
FUNCTIONS = [D + n for n in ('_convert_dattim', '_convert_ftime', '_convert_level',
                             '_make_date', '_make_time')] + [
    'gempakio.decode.gempak.GempakGrid._convert_vertical_coord', E + 'GridFile.add_grid',
    E + 'GridFile._write_column_headers', E + 'SoundingFile._write_row_headers',
    E + 'SurfaceFile._write_row_headers', E + 'DataManagementFile._encode_vertical_coordinate']
TRUSTED = ['datetime.strptime and strftime on full-width digit fields, date + timedelta (an '
           'unknown function of both), re.split by a pattern of letters, sorted, namedtuple, '
           'struct.pack of a word and its reading back']
ASSUMPTIONS = ['years 1969 to 2068 (two-digit years), times in whole minutes, levels below '
               '2**31; texts of full-width digit fields',
               'coordinate names of four characters (codes above 8) checked by the monitor only',
               'the header of one grid, of any content, in a file of any other grids']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: proved.run(n, b, dl), functions=FUNCTIONS)
            for n, b in proved.BODIES.items()]

MONITOR_SECONDS = 14
VC = gen.VC


def codings(rng, log):
    """The decoders on codes built from the definition."""
    from gempakio.common import ForecastType
    from gempakio.decode.gempak import GempakFile, GempakGrid
    me = GempakGrid.__new__(GempakGrid)
    me.prefmt = ''
    day = datetime.date(1969, 1, 1)
    while day < datetime.date(2069, 1, 1):
        d = datetime.datetime(day.year, day.month, day.day)
        w = R.gdt(0, d)
        if GempakFile._convert_dattim(w) != d or GempakFile._make_date(w) != d.date():
            raise Fail(f'{w} decodes to {GempakFile._convert_dattim(w)}', {'dattim': w})
        t = d + datetime.timedelta(minutes=rng.choice([0, 1439, 59, 60, rng.randint(0, 1439)]))
        w = R.gdt(1, t)
        if GempakFile._convert_dattim(w) != t:
            raise Fail(f'{w} decodes to {GempakFile._convert_dattim(w)}', {'dattim': w})
        day += datetime.timedelta(days=1)
    if GempakFile._convert_dattim(0) is not None:
        raise Fail('0 is no date', {'dattim': 0})
    log.case('all days')
    for h in range(24):
        for m in range(60):
            if GempakFile._make_time(h * 100 + m) != datetime.time(h, m):
                raise Fail(f'{h * 100 + m} decodes to {GempakFile._make_time(h * 100 + m)}',
                           {'time': h * 100 + m})
    for tc in range(4):
        for h in range(1000):
            m = rng.choice([0, 1, 30, 59])
            got = GempakFile._convert_ftime(R.gtm(tc, h, m))
            if got != (ForecastType(tc).name, datetime.timedelta(hours=h, minutes=m)):
                raise Fail(f'{R.gtm(tc, h, m)} decodes to {got}', {'ftime': R.gtm(tc, h, m)})
            log.case(('ftime', tc, h))
    if GempakFile._convert_ftime(-1) is not None:
        raise Fail('negative forecast time is none', {'ftime': -1})
    for v in [-1, -2, -9999, 0, 1, 1000, 2**31 - 1, *(rng.randint(-9999, 200000) for _ in range(99))]:
        got = GempakFile._convert_level(v)
        if got != (v if v >= 0 else None):
            raise Fail(f'level {v} decodes to {got}', {'level': v})
    for k, n in enumerate(VC):
        if me._convert_vertical_coord(k) != n:
            raise Fail(f'coordinate {k} decodes to {me._convert_vertical_coord(k)}', {'coord': k})
    for pre, e in [('', 'little'), ('<', 'little'), ('>', 'big')]:
        me.prefmt = pre
        for n in (b'ESAT', b'HAGL', b'DPTQ'):
            if me._convert_vertical_coord(int.from_bytes(n, e)) != n.decode():
                raise Fail(f'coordinate {n}', {'coord': n.decode(), 'order': e})


def written(rng, log):
    """What add_grid and the writer encode, read as raw words and as decoded."""
    from gempakio import GempakGrid, GridFile
    s = W.grid_setup(rng, (1, 1), 'CED')
    z = np.zeros((1, 1))
    with R.Scratch() as tmp:
        while log.more():
            f = GridFile(s['lon'], s['lat'], s['proj'])
            args = []
            for k in range(rng.randint(1, 12)):
                a, inv, _g = W.grid_entry(rng, s)
                a['level'] = k * 1000 + rng.randint(0, 999)
                inv = (*inv[:4], a['level'], *inv[5:])
                a['grid'] = z
                f.add_grid(**a)
                args.append(({k: str(v) for k, v in a.items() if k != 'grid'}, a, inv))
            case = {'added': [x[0] for x in args]}
            with limit(30, 'write and read', case):
                path, b = tmp.save(f)
                r = GempakGrid(path)
            raw = R.Raw(b)
            ck = raw.keys()[1]
            bylevel = {x.LEVEL1: x for x in r.gdinfo()}
            if len(bylevel) != len(args):
                raise Fail(f'{len(bylevel)} grids for {len(args)}', case)
            for txt, a, inv in args:
                x = bylevel.get(a['level'])
                if x is None or (x.TYPE, x.DATTIM1, x.DATTIM2, x.PARM, x.LEVEL1, x.LEVEL2,
                                 x.COORD) != inv:
                    raise Fail(f'decoded as {x}, added {inv}', txt)
                w = {n: raw.i(raw.colhead(x.GRIDNO) + 1 + k) for k, n in enumerate(ck)}
                dt = a['date_time']
                if isinstance(dt, datetime.datetime):
                    tc, d, h, m = 0, dt, dt.hour, dt.minute
                else:
                    d = datetime.datetime.strptime(dt[:12], '%Y%m%d%H%M')
                    t, rest = dt[12:13].upper(), dt[13:]
                    tc = W.TYPES[t] if t else 0
                    h, m = int(rest[:3] or 0), int(rest[3:] or 0)
                    if tc == 0:
                        d = d + datetime.timedelta(hours=h, minutes=m)
                        h, m = d.hour, d.minute
                want = {'GDT1': R.gdt(tc, d), 'GTM1': R.gtm(tc, h, m), 'GLV1': a['level'],
                        'GLV2': -1 if a['level2'] is None else int(a['level2']),
                        'GVCD': VC.index(inv[6])}
                for n, v in want.items():
                    if w[n] != v:
                        raise Fail(f'{n} encoded as {w[n]}, defined as {v}', txt)
            log.case(str(case)[:400], sample=str(case)[:150])


MONITORS = ['codings', 'written']
