"""C07: grid files round-trip metadata, navigation and data."""
import logging
import warnings

import numpy as np

from contracts import adding, file_layout, grid_select, navigation, read_file, round_trip, written
from vp import gemref as R, gen, writers as W
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
E = 'gempakio.encode.gempak.'
FUNCTIONS = [G + n for n in ('GempakFile.__init__', 'GempakGrid.__init__', 'GempakGrid._get_crs', 'GempakGrid._set_coordinates', 'GempakGrid.gdxarray', 'GempakFile._convert_dattim', 'GempakFile._convert_ftime')] + [E + n for n in ('GridFile._write_row_headers', 'GridFile._write_column_headers', 'GridFile._write_data', 'DataManagementFile._write_label', 'DataManagementFile._write_parts', 'DataManagementFile._write_row_keys', 'DataManagementFile._write_column_keys', 'DataManagementFile.to_gempak', 'GridFile._write_file_keys', 'GridFile._write_file_headers', 'GridFile._set_bbox', 'GridFile._set_projection_params')]
FUNCTIONS += [E + n for n in ('GridFile.add_grid', 'DataManagementFile._replace_nan', 'DataManagementFile._encode_vertical_coordinate')]
TRUSTED = ['IOBuffer: read_struct, read_int, read_binary, read_ascii, jump_to, set_mark (proved, C29)', 'the data of a packed part: _unpack_real (proved, C04); _merge_sounding, _process_report_text (C21, C22)', 'a name is stripped bytes, decoded; datetime.combine keeps its date and time', 'pyproj: from_dict makes the coordinate system named; to_cf names the parameters of one', 'packing a grid and unpacking it: C01, C02; texts of dates, levels and coordinates: C10']
ASSUMPTIONS = ['the version word is 1 and every row and column header is in use (the flag word is 9999)', 'keys as GEMPAK lays files out: two or one row keys, up to three column keys for the base reader; the keys of grid, sounding, standard, ship and climate files for the others; one or two parts; any number of rows, columns, parameters, levels and entries', 'the blocks of the entries asked for hold the words their parts need; text parts have one parameter', 'the projection has CF parameters, or those of its coordinate operation (Lambert azimuthal and gnomonic projections, whose parameters are searched for in a text, by the monitor only)', 'MCD projections are not made by the writer']


def proofs(tier):
    mods = ((file_layout, lambda n: n == 'GridFile data' or n == 'GridFile label fields'
             or n == 'GridFile to_gempak'),
            (written, lambda n: n.startswith('GridFile')),
            (round_trip, lambda n: n.startswith('GridFile')),
            (read_file, lambda n: n in READ),
            (adding, lambda n: n.startswith('add_grid') or n in ('missing values replaced',)),
            (navigation, lambda n: True))
    more = [Task(n, lambda dl, n=n: grid_select.run(n, dl), functions=FUNCTIONS)
            for n in grid_select.ORDERS if 'order' in n]
    return more + [Task(n, lambda dl, m=m, n=n, b=b: m.run(n, b, dl), functions=FUNCTIONS)
            for m, want in mods for n, b in m.BODIES.items() if want(n)]


READ = ('GempakFile 0', 'GempakFile 1', 'grid inventory', 'coordinate systems', 'vertical coordinates')


MONITOR_SECONDS = 20
PROJ4 = {'MER': 'merc', 'STR': 'stere', 'LCC': 'lcc', 'CED': 'eqc', 'ORT': 'ortho', 'AED': 'aeqd',
         'LEA': 'laea', 'GNO': 'gnom'}


def near32(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def key(inv):
    return tuple(inv)


def one(rng, log, tmp):
    import gempakio as g
    s = W.grid_setup(rng)
    ny, nx = s['shape']
    rot = rng.choice([0, 0, 0, 30]) if s['name'] != 'LCC' else 0
    use_xy = rng.random() < .3
    f = g.GridFile(s['x'], s['y'], s['proj'], use_xy=True, rotation=rot) if use_xy else \
        g.GridFile(s['lon'], s['lat'], s['proj'], rotation=rot)
    f.precision = bits = rng.choice([16, 16, 31, rng.randint(2, 31)])
    want = {}
    hist = []
    n = rng.choice([1, 1, 2, 3, 6])
    pool = []
    for _ in range(n):
        if pool and rng.random() < .3:    # same metadata again, new data; or one item changed
            a, inv, _g = rng.choice(pool)
            a = dict(a)
            arr = np.array(gen.values(rng, nx * ny, np.nan)).reshape(ny, nx)
            a['grid'] = arr
            if rng.random() < .4:
                lv = rng.randint(0, 3000)
                a['level'] = lv
                inv = (*inv[:4], lv, *inv[5:])
            gg = arr.copy()
        else:
            a, inv, gg = W.grid_entry(rng, s)
        pool.append((a, inv, gg))
        # the same valid time from different initial times is distinct metadata: keep one each
        if key(inv) in want and want[key(inv)][0] != (str(a['date_time']).upper(),
                                                       str(a['date_time2']).upper()):
            continue
        hist.append({k: (v if k != 'grid' else v.tolist()) for k, v in a.items()})
        f.add_grid(**a)
        want[key(inv)] = ((str(a['date_time']).upper(), str(a['date_time2']).upper()), gg)
    case = {'projection': s['name'], 'angles': s['angles'], 'shape': s['shape'],
            'precision': bits, 'use_xy': use_xy, 'rotation': rot, 'added': str(hist)[:3000]}
    with limit(60, 'write and read', case), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        path, b = tmp.save(f)
        r = g.GempakGrid(path)
        inv = r.gdinfo()
        got = {}
        for x in inv:
            k = (x.TYPE, x.DATTIM1, x.DATTIM2, x.PARM, x.LEVEL1, x.LEVEL2, x.COORD)
            if k in got:
                raise Fail(f'two grids read back as {k}', case)
            got[k] = x
        if set(got) != set(want):
            raise Fail(f'inventory read back: extra {sorted(map(str, set(got) - set(want)))[:3]}, '
                       f'lost {sorted(map(str, set(want) - set(got)))[:3]}', case)
        nb = r.navigation_block
        a1, a2, a3 = s['angles']
        if s['name'] != 'LCC':
            a3 = rot
        for nm, gv, wv in [('projection', nb.projection, s['name']), ('angle1', nb.proj_angle1, a1),
                           ('angle2', nb.proj_angle2, a2), ('angle3', nb.proj_angle3, a3),
                           ('nx', r.kx, nx), ('ny', r.ky, ny),
                           ('left', nb.left_grid_number, 1), ('bottom', nb.bottom_grid_number, 1),
                           ('right', nb.right_grid_number, nx), ('top', nb.top_grid_number, ny),
                           ('ll lat', nb.lower_left_lat, s['lat'][0, 0]),
                           ('ll lon', nb.lower_left_lon, s['lon'][0, 0]),
                           ('ur lat', nb.upper_right_lat, s['lat'][-1, -1]),
                           ('ur lon', nb.upper_right_lon, s['lon'][-1, -1])]:
            if (gv != wv) if isinstance(wv, str) else not near32(gv, wv, 1e-6):
                raise Fail(f'{nm} read back as {gv!r}, written {wv!r}', case)
        cd = r.crs.to_dict()
        if cd.get('proj') != PROJ4[s['name']] or not near32(cd.get('lon_0', 0), a2):
            raise Fail(f'CRS {cd} for {s["name"]} {s["angles"]}', case)
        if s['name'] == 'LCC' and not (near32(cd.get('lat_1', 0), a1)
                                       and near32(cd.get('lat_2', cd.get('lat_1')), a3)):
            raise Fail(f'CRS {cd} for {s["name"]} {s["angles"]}', case)
        for q, w in [((0, 0), (0, 0)), ((-1, -1), (-1, -1))]:
            if abs(r.lat[q] - s['lat'][w]) > 2e-3 or abs(r.lon[q] - s['lon'][w]) > 2e-3:
                raise Fail(f'corner {q}: lat/lon {(r.lat[q], r.lon[q])}, '
                           f'written {(s["lat"][w], s["lon"][w])}', case)
        raw = R.Raw(b)
        alld = r.gdxarray()
        if len(alld) != len(inv):
            raise Fail(f'{len(alld)} grids returned of {len(inv)}', case)
        for x, da in zip(inv, alld, strict=True):
            k = (x.TYPE, x.DATTIM1, x.DATTIM2, x.PARM, x.LEVEL1, x.LEVEL2, x.COORD)
            gg = want[k][1]
            q = raw.pointer(0, x.GRIDNO)
            step = raw.f(q + 8)
            v = gg[~np.isnan(gg)].astype(float)
            rngv = float(v.max() - v.min()) if v.size else 0.0
            if rngv > 0 and step > 2 * rngv / (2**bits - 1.5) * (1 + 1e-6):
                raise Fail(f'step {step} for range {rngv} at {bits} bits', case)
            a = da.values.reshape(ny, nx).astype(float)
            miss = np.isnan(gg)
            if not np.array_equal(np.isnan(a), miss):
                raise Fail(f'{k}: missing points differ', {**case, 'grid': gg.tolist()})
            tol = step / 2 + 4e-7 * (np.abs(gg.astype(float)) + abs(v.min() if v.size else 0))
            bad = ~miss & (np.abs(a - gg.astype(float)) > tol)
            if bad.any():
                j = tuple(int(t) for t in np.argwhere(bad)[0])
                raise Fail(f'{k}: point {j} written {gg[j]!r} read {a[j]!r}, step {step}', case)
            if da.attrs['grid_type'] != x.TYPE or da.name not in (x.PARM.lower(), 'p', 'z'):
                raise Fail(f'{k}: returned as {da.name}, {da.attrs["grid_type"]}', case)
            t = da.coords['time'].values[0]
            if np.datetime64(x.DATTIM1, 'ns') != t:
                raise Fail(f'{k}: time coordinate {t}', case)
    log.case(str(case)[:500], sample=str(case)[:200])


def monitor(rng, log):
    logging.disable(logging.WARNING)
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
