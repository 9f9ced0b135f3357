"""C17: files that are not GEMPAK files or are of an unknown layout are refused."""
import logging
import struct
import warnings

from contracts import grid_decode, grid_select, read_file, refusals
from vp import filegen, gemref as R, gen
from vp.api import Fail, Task, limit

G = 'gempakio.decode.gempak.'
FUNCTIONS = [G + n for n in (
    'GempakFile.__init__', 'GempakGrid.__init__', 'GempakSounding.__init__',
    'GempakSurface.__init__', '_data_source', 'GempakSurface._get_surface_type',
    'GempakGrid._get_crs', 'GempakGrid._unpack_grid', 'GempakGrid.gdxarray')]
TRUSTED = ['IOBuffer: read_struct, read_int, read_binary, read_ascii, jump_to, set_mark (proved, C29)', 'the data of a packed part: _unpack_real (proved, C04); _merge_sounding, _process_report_text (C21, C22)', 'a name is stripped bytes, decoded; datetime.combine keeps its date and time']
ASSUMPTIONS = ['keys as GEMPAK lays files out: two or one row keys, up to three column keys for the base reader; the keys of grid, sounding, standard, ship and climate files for the others; one or two parts; any number of rows, columns, parameters, levels and entries', 'the version word is 1 and headers are in use', 'the grid packings of the enumeration PackingType (codes outside it are refused by it: monitor)']


def proofs(tier):
    t = [Task(n, lambda dl, m=m, n=n, b=b: m.run(n, b, dl), functions=FUNCTIONS)
         for m in (refusals, read_file) for n, b in m.BODIES.items()
         if m is refusals or n in ('GempakFile 0', 'GempakFile 1', 'coordinate systems')]
    return t + [Task('other packings', lambda dl: grid_decode.run('other packings', dl),
                     functions=FUNCTIONS),
                Task('packing refused', lambda dl: grid_select.run('packing refused', dl),
                     functions=FUNCTIONS)]


MONITOR_SECONDS = 16
READERS = ['GempakGrid', 'GempakSounding', 'GempakSurface']
PROJ = ['MER', 'NPS', 'SPS', 'LCC', 'SCC', 'CED', 'MCD', 'NOR', 'SOR', 'STR', 'AED', 'ORT', 'LEA',
        'GNO']
SOURCES = {0: 'model', 1: 'airway_surface', 2: 'metar', 3: 'ship', 4: 'raob_buoy',
           5: 'synop_raob_vas', 6: 'grid', 7: 'watch_by_county', 99: 'unknown', 100: 'text',
           102: 'metar2', 103: 'ship2', 104: 'raob_buoy2', 105: 'synop_raob_vas2'}


def refused(reader, tmp, b, what, then=None, case=None):
    import gempakio as g
    p = tmp.put(b)
    try:
        with limit(30, what, case):
            o = getattr(g, reader)(p)
            if then:
                then(o)
    except Fail:
        raise
    except Exception:   # noqa: BLE001
        return
    raise Fail(f'{reader} accepts a file with {what}', case)


def setw(b, e, word, raw):
    o = 4 * (word - 1)
    return b[:o] + raw + b[o + 4:]


def any_grid(rng, **kw):
    kx, ky = rng.randint(2, 5), rng.randint(2, 5)
    t = R.rnd_dt(rng)
    bits = rng.randint(2, 16)
    g = dict(gdt1=R.gdt(0, t), gtm1=R.gtm(0, t.hour, t.minute), lv1=500, vc=1, parm='TMPC',
             block=R.grib_block(kx, ky, bits, [1] * (kx * ky), 0.0, 1.0,
                                packing=kw.get('packing', 1)))
    nav = R.nav_words(kw.get('proj', 'CED'), kx, ky, (10, -100), (40, -60), kw.get('a1', 0),
                      kw.get('a2', 0), kw.get('a3', 0))
    return R.grid_desc(rng, [g], kx, ky, nav=nav)


def signature(rng, log, tmp, e):
    reader = rng.choice(READERS)
    if reader == 'GempakGrid':
        d = any_grid(rng)
    elif reader == 'GempakSounding':
        d = filegen.sounding(rng)[0]
    else:
        d = filegen.surface(rng)[0]
    b = R.build(d, e)
    import gempakio as g
    with limit(30, 'opening a valid file'):
        getattr(g, reader)(tmp.put(b))
    how = rng.choice(['bit', 'bit', 'byte', 'byte', 'last', 'case', 'short', 'swap', 'other'])
    s = bytearray(b[:28])
    if how == 'bit':
        k = rng.randrange(28 * 8)
        s[k // 8] ^= 1 << (k % 8)
    elif how == 'byte':
        s[rng.randrange(28)] = rng.choice([0, 32, 255, 65, 10])
    elif how == 'last':
        s[27] = rng.choice([0, 10, 95, 46, 33])
    elif how == 'case':
        s = bytearray(bytes(s).lower())
    elif how == 'swap':
        s = bytearray(b''.join(bytes(s[k:k + 4])[::-1] for k in range(0, 28, 4)))
    elif how == 'other':
        s = bytearray(rng.choice([b'GEMPAK DATA MANAGEMENT FILE\0', b'GEMPAK', b'\x89HDF\r\n',
                                  b' GEMPAK DATA MANAGEMENT FILE'])[:28].ljust(28))
    if bytes(s) == R.SIG:
        return
    bad = bytes(s) + b[28:]
    if how == 'short':
        bad = b[:rng.randint(0, 27)]
    for r in READERS:
        refused(r, tmp, bad, f'signature {bytes(s)!r} ({how})', case={'signature': repr(bad[:28]),
                                                                     'reader': r})
    log.case(('sig', how, bytes(s)))


def blocks(rng, log, tmp, e):
    b = R.build(any_grid(rng), e)
    raw = R.Raw(b)
    at = raw.file_keys_ptr + 3 * raw.file_headers
    which = rng.choice(['navigation', 'analysis'])
    good = 256 if which == 'navigation' else 128
    word = at if which == 'navigation' else at + 257
    if raw.i(word) != good:
        raise Fail('reference builder: wrong place for the block length')
    v = rng.choice([0, 1, -1, good - 1, good + 1, 128 if good == 256 else 256, 13, good << 8,
                    good << 24, good * 4, rng.randint(-9999, 2**31 - 1)])
    v &= 0xFFFFFFFF
    if v == good:
        return
    bad = setw(b, e, word, struct.pack(e + 'I', v))
    refused('GempakGrid', tmp, bad, f'{which} block length {v}', case={'block': which, 'length': v})
    log.case((which, v, e))


def projection(rng, log, tmp, e):
    import gempakio as g
    name = rng.choice([*PROJ, 'XXX', 'LCE', 'MRC', 'UTM', 'RAD', 'MCD', '   ', 'STX', 'lcc', 'OBS',
                       'LC', 'ABC', 'MET', 'GEO',
                       ''.join(rng.choice('ABCDEFGLMNOPRSTC') for _ in range(3))])
    a = dict(a1=25 if name in ('LCC', 'SCC') else 60 if name in ('NPS', 'STR') else 0,
             a2=-95, a3=25 if name in ('LCC',) else 0)
    if name == 'MER':
        a = {}
    if name in ('SPS',):
        a['a1'] = -60
    if name == 'SCC':
        a['a1'] = a['a3'] = -25
    b = R.build(any_grid(rng, proj=name, **a), e)
    case = {'projection': name}
    if name in PROJ:
        import pyproj
        with limit(30, 'opening', case), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = g.GempakGrid(tmp.put(b))
        if not isinstance(o.crs, pyproj.CRS):
            raise Fail(f'no coordinate system for {name}', case)
    else:
        refused('GempakGrid', tmp, b, f'projection {name!r}', case=case)
    log.case(('proj', name))


def packing(rng, log, tmp, e):
    v = rng.choice([2, 5, 6, 7, -1, 100, -9999, 256, rng.randint(6, 2**31 - 1)])
    b = R.build(any_grid(rng, packing=v), e)
    refused('GempakGrid', tmp, b, f'grid packing {v}', then=lambda o: o.gdxarray(),
            case={'packing': v})
    log.case(('packing', v))


def layout(rng, log, tmp, e):
    keys = list(R.STN)
    dk = ['DATE', 'TIME']
    s1, s2 = gen.station(rng), gen.station(rng)
    t1, t2 = gen.times(rng, 2)

    def dw(t):
        return [R.I(R.date_word(t)), R.I(R.time_word(t))]
    drop = [k for k in keys if k != 'STID']
    kind = rng.choice(['nodate', 'noid', 'rows', 'cols', 'none', 'grid', 'one'])
    st = R.stn_words
    if kind == 'nodate':
        rk, rows, ck, cols = ['TIME'], [[dw(t1)[1]], [dw(t2)[1]]], keys, [st(s1), st(s2)]
    elif kind == 'noid':
        rk, rows, ck, cols = dk, [dw(t1), dw(t2)], drop, [st(s1, drop), st(s2, drop)]
    elif kind == 'rows':
        rk, ck = dk + keys, ['XXXX']
        rows, cols = [dw(t1) + st(s1), dw(t2) + st(s2)], [[R.I(1)], [R.I(2)]]
    elif kind == 'cols':    # ship reports have only one row
        rk, ck = ['XXXX'], dk + keys
        rows, cols = [[R.I(1)], [R.I(2)]], [dw(t1) + st(s1), dw(t2) + st(s2)]
    elif kind == 'none':
        rk, rows, ck, cols = ['XXXX'], [[R.I(1)], [R.I(2)]], ['YYYY'], [[R.I(1)]]
    elif kind == 'one':
        rk, rows, ck, cols = ['XXXX'], [[R.I(1)]], drop + dk, [st(s1, drop) + dw(t1)]
    else:
        b = R.build(any_grid(rng), e)
        refused('GempakSurface', tmp, b, 'grids instead of stations', case={'kind': kind})
        log.case(('layout', kind))
        return
    d = dict(file_type=1, data_source=2, row_keys=rk, rows=rows, col_keys=ck, cols=cols,
             parts=[dict(name='SFDT', header=1, dtype=1, params=[('TMPC', 0, 0, 0)])],
             data={(0, 0, 0): [R.I(0), R.F(1.5)]})
    refused('GempakSurface', tmp, R.build(d, e), f'surface layout {rk}/{ck}',
            case={'row_keys': rk, 'col_keys': ck})
    log.case(('layout', kind, s1['id']))


def source(rng, log, tmp, e):
    import gempakio as g
    from gempakio.decode.gempak import _data_source
    v = rng.choice([*SOURCES, 8, 9, 98, 101, 106, -1, -9999, 2**31 - 1, rng.randint(0, 300)])
    d = any_grid(rng)
    d['data_source'] = v
    with limit(30, 'opening', v):
        o = g.GempakGrid(tmp.put(R.build(d, e)))
    want = SOURCES.get(v, 'unknown')
    for got in (o.dm_label.data_source, _data_source(v)):
        if got.name != want:
            raise Fail(f'data source {v} is read as {got.name}, not {want}', {'data_source': v})
    log.case(('source', v))


KINDS = [signature, signature, blocks, projection, packing, layout, source]


def monitor(rng, log):
    logging.disable(logging.CRITICAL)
    k = 0
    with R.Scratch() as tmp:
        while log.more():
            KINDS[k % len(KINDS)](rng, log, tmp, rng.choice('<>'))
            k += 1


MONITORS = ['monitor']
