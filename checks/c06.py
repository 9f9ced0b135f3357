"""C06: files decode the same regardless of byte order."""
import pathlib
import warnings

import numpy as np

from contracts import grid_decode, grid_select, iobuffer, read_file
from vp import filegen, gemref as R, writers as W, gen
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
FUNCTIONS = [G + n for n in (
    'GempakFile.__init__', 'GempakGrid.__init__', 'GempakGrid._unpack_grid',
    'GempakGrid._convert_vertical_coord', 'GempakGrid.gdxarray', 'GempakSounding.__init__',
    'GempakSounding._unpack_merged', 'GempakSounding._unpack_unmerged',
    'GempakSurface.__init__', 'GempakSurface._unpack_standard', 'GempakSurface._unpack_ship',
    'GempakSurface._unpack_climate')] + [
    'gempakio.tools.IOBuffer.' + n for n in ('read_struct', 'read_int', 'read_array')]
TRUSTED = ['IOBuffer: read_struct, read_int, read_binary, read_ascii, jump_to, set_mark (proved, C29)', 'the data of a packed part: _unpack_real (proved, C04); _merge_sounding, _process_report_text (C21, C22)', 'a name is stripped bytes, decoded; datetime.combine keeps its date and time']
ASSUMPTIONS = ['the version word is 1 and every row and column header is in use (the flag word is 9999)', 'keys as GEMPAK lays files out: two or one row keys, up to three column keys for the base reader; the keys of grid, sounding, standard, ship and climate files for the others; one or two parts; any number of rows, columns, parameters, levels and entries', 'the blocks of the entries asked for hold the words their parts need; text parts have one parameter', 'difference-packed grids of 12 bits here (every width in C03)']


def proofs(tier):
    t = [Task(n, lambda dl, n=n, b=b: read_file.run(n, b, dl), functions=FUNCTIONS)
         for n, b in read_file.BODIES.items() if n != 'coordinate systems']
    t += [Task(n, lambda dl, n=n: grid_decode.run(n, dl), functions=FUNCTIONS)
          for n in grid_decode.ORDERS]
    t += [Task(n, lambda dl, n=n: grid_select.run(n, dl), functions=FUNCTIONS)
          for n in grid_select.ORDERS if 'order' in n]
    t.append(Task('IOBuffer typed reads', lambda dl: iobuffer.run(
        'typed', iobuffer.body_typed, dl), functions=FUNCTIONS))
    return t


MONITOR_SECONDS = 14
DATA = pathlib.Path('/repo/tests/data')


def plain(x):
    if isinstance(x, dict):
        return tuple((k, plain(v)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        return (x.shape, tuple('nan' if v != v else v for v in x.reshape(-1).tolist()))
    if isinstance(x, list | tuple):
        return tuple(plain(v) for v in x)
    return repr(x)


def decode(path, kind, cap=6):
    import gempakio as g
    if kind == 3:
        f = g.GempakGrid(path)
        inv = f.gdinfo()
        data = []
        for k in inv[:cap]:
            d = f.gdxarray(parameter=k.PARM, date_time=k.DATTIM1, level=k.LEVEL1,
                           coordinate=k.COORD) if k.LEVEL1 is not None else \
                f.gdxarray(parameter=k.PARM, date_time=k.DATTIM1)
            data += [(str(a.name), str(a.coords['time'].values), plain(a.values),
                      plain(a.lat.values)) for a in d]
        nav = [repr(v) for v in f.navigation_block]
        out = (nav, repr(f.analysis_block), f.crs.to_wkt())
    elif kind == 2:
        f = g.GempakSounding(path)
        inv = f.sninfo()
        data = []
        for k in inv[:cap]:
            for d in f.snxarray(station_id=k.ID, station_number=k.NUMBER, date_time=k.DATTIM):
                data.append((plain(d.attrs), {n: plain(np.asarray(v.values)) for n, v in
                                              d.variables.items()}))
        out = ()
    else:
        f = g.GempakSurface(path)
        inv = f.sfinfo()
        data = []
        for k in inv[:cap]:
            for d in f.sfjson(station_id=k.ID, station_number=k.NUMBER, date_time=k.DATTIM,
                              include_special=True):
                data.append(plain(d))
        out = (f.surface_type,)
    lab = [repr(v) for v in f.dm_label]
    rows = [repr(tuple(r)) for r in f.row_headers]
    cols = [repr(tuple(r)) for r in f.column_headers]
    return {'inventory': [tuple(map(repr, k)) for k in inv], 'data': data, 'label': lab,
            'data management': repr(f.data_management), 'parts': repr(f.parts),
            'parameters': repr(f.parameters), 'row headers': rows, 'column headers': cols,
            'keys': (tuple(f.row_keys), tuple(f.column_keys)), 'other': out}


def compare(tmp, b1, kind, case):
    b2 = R.swap(b1)
    with limit(60, 'decode', case), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = decode(tmp.put(b1), kind)
        try:
            b = decode(tmp.put(b2), kind)
        except Exception as e:  # noqa: BLE001
            raise Fail(f'{type(e).__name__} {e} in the other byte order only', case) from e
    for k in a:
        if a[k] != b[k]:
            raise Fail(f'{k} differs between byte orders: {str(a[k])[:300]} / {str(b[k])[:300]}',
                       case)


def one(rng, log, tmp):
    kind = rng.choice([1, 2, 3])
    how = rng.choice(['built', 'built', 'written'])
    if how == 'built':
        if kind == 1:
            d, lay, cells = filegen.surface(rng, text=rng.random() < .4)
            case = {'layout': lay, 'entries': str(cells)[:1500]}
        elif kind == 2:
            d, cells = filegen.sounding(rng)
            case = {'entries': str(cells)[:1500]}
        else:
            kx, ky = rng.randint(1, 8), rng.randint(1, 8)
            gs = []
            for k in range(rng.randint(1, 4)):
                bits = rng.randint(1, 31)
                n = kx * ky
                blk = rng.choice([
                    lambda: R.none_block(kx, ky, gen.values(rng, n)),
                    lambda: R.grib_block(kx, ky, bits, [rng.getrandbits(bits) for _ in range(n)],
                                         1.5, .25, packing=rng.choice([1, 4])),
                    lambda: R.diff_block(kx, ky, bits, [rng.getrandbits(bits) for _ in range(n)],
                                         1.5, 2.0**-8, 0.0, rng.choice([0, 1]))])()
                tc = rng.choice([0, 0, 1, 2, 3])
                dt = R.rnd_dt(rng, 1975)
                gs.append(dict(gdt1=R.gdt(tc, dt), gtm1=R.gtm(tc, rng.choice([0, 6, 120]), 0),
                               gdt2=rng.choice([0, R.gdt(tc, dt)]), gtm2=R.gtm(tc, 3, 0),
                               lv1=rng.randint(0, 1000), lv2=rng.choice([-1, 5]),
                               vc=rng.choice([0, 1, 2, 8, int.from_bytes(b'ESAT', 'little')]),
                               parm=rng.choice(gen.PARMS), block=blk))
            d = R.grid_desc(rng, gs, kx, ky, shuffle=True, anl=rng.choice([1, 2]))
            for c in d['cols']:      # a character coordinate is stored as characters
                if c[6][1] > 8:
                    c[6] = R.S('ESAT')
            case = {'grids': str(gs)[:1500]}
        b = R.build(d, '<')
        if R.swap(b) != R.build({**d, 'shuffle': None}, '>') and d.get('shuffle') is None:
            raise RuntimeError('reference builder and swapper disagree')
    else:
        import gempakio as g
        if kind == 1:
            f = g.SurfaceFile(['TMPC', 'DRCT'])
            for s in gen.distinct(rng, gen.station, 3, lambda s: s['id']):
                f.add_station({'TMPC': rng.uniform(-9, 9), 'DRCT': float('nan')}, s['lat'],
                              s['lon'], R.rnd_dt(rng),
                              {'station_id': s['id'], 'station_number': s['num']})
        elif kind == 2:
            f = g.SoundingFile(['PRES', 'TEMP'])
            for s in gen.distinct(rng, gen.station, 3, lambda s: s['id']):
                dd, _a, _b = W.snd_entry(rng, ['PRES', 'TEMP'])
                f.add_sounding(dd, s['lat'], s['lon'], R.rnd_dt(rng),
                               {'station_id': s['id'], 'station_number': s['num']})
        else:
            s = W.grid_setup(rng)
            f = g.GridFile(s['lon'], s['lat'], s['proj'])
            f.precision = rng.randint(1, 31)
            for _ in range(3):
                a, _inv, _g = W.grid_entry(rng, s)
                f.add_grid(**a)
        b = tmp.save(f)[1]
        case = {'written': kind}
    compare(tmp, b, kind, case)
    log.case((kind, how, hash(b)), sample=str(case)[:200])


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)


def archived(rng, log):
    """Archived files of the repository, byte-swapped."""
    with R.Scratch() as tmp:
        files = [f for f in sorted(DATA.glob('*')) if f.suffix in ('.grd', '.snd', '.sfc')
                 and f.stat().st_size < 100000]
        rng.shuffle(files)
        for f in files:
            if not log.more():
                break
            compare(tmp, f.read_bytes(), {'.grd': 3, '.snd': 2, '.sfc': 1}[f.suffix],
                    {'file': f.name})
            log.case(f.name)


MONITORS = ['monitor', 'archived']
