"""Random reference-built sounding and surface files, with what they contain (monitors only)."""
import datetime

from . import gemref as R, gen

SP = [('PMSL', 1), ('TMPC', 1), ('DWPC', 1), ('SKNT', 0), ('DRCT', 0), ('VSBY', 2)]


def real_or_pack(rng, names, dense=True):
    """(dtype, params, encode(values)->words, decode(values)->floats) for float records."""
    if rng.random() < .5:
        pars = [(n, 0, 0, 0) for n in names]
        return 1, pars, (lambda recs: [R.F(v) for r in recs for v in r]), R.f32
    bits = 20
    pars = [(n, -1, -5000, bits) for n in names]

    def enc(recs):
        out = []
        for r in recs:
            f = [(2**bits - 1) if v == -9999.0 else round(v * 10) + 5000 for v in r]
            out += [R.I(w) for w in R.pack_record(f, [bits] * len(names))]
        return out
    return 4, pars, enc, (lambda v: v)


def tenth(rng, lo, hi, miss=.1):
    return -9999.0 if rng.random() < miss else rng.randint(lo * 10, hi * 10) / 10


def surface(rng, layout=None, text=False):
    layout = layout or rng.choice(['standard', 'ship', 'climate'])
    nst, nt = rng.choice([(1, 1), (1, 3), (3, 1), (2, 2), (rng.randint(1, 6), rng.randint(1, 5))])
    stations = gen.distinct(rng, lambda r: gen.station(r, long_id=True), nst,
                            lambda s: (s['id'], s['num']))
    if nst > 1 and rng.random() < .3:      # two stations share an identifier or a number
        stations[1] = {**stations[1], rng.choice(['id', 'num']): stations[0]['id']} \
            if rng.random() < .5 else {**stations[1], 'id': stations[0]['id']}
        if not isinstance(stations[1]['num'], int):
            stations[1]['num'] = stations[0]['num']
    tms = gen.times(rng, nt)
    if rng.random() < .3:
        rng.shuffle(tms)
    names = [n for n, _ in SP][:rng.randint(1, len(SP))]
    dtype, pars, enc, dec = real_or_pack(rng, names)
    keys = list(R.STN)
    if rng.random() < .3:
        rng.shuffle(keys)
    dkeys = ['DATE', 'TIME']
    cells = []
    data = {}
    dens = rng.choice([1, 1, .6, .2])
    parts = [dict(name='SFDT', header=rng.choice([1, 1, 2]), dtype=dtype, params=pars)]

    def head(k):
        return [R.I(1200)] * parts[k]['header']

    def dw(t):
        return [R.I(R.date_word(t)), R.I(R.time_word(t))]

    texts = text and layout == 'standard'
    if texts:
        parts.append(dict(name='SFTX', header=1, dtype=3, params=[('TEXT', 0, 0, 0)]))
        parts.append(dict(name='SFSP', header=1, dtype=3, params=[('SPCL', 0, 0, 0)]))

    def cell(r, c, s, t):
        vals = [tenth(rng, -40, 1050) for _ in names]
        e = {'row': r, 'col': c, 'dt': t, 'stn': s, 'text': None, 'spcl': None,
             'values': {n.lower(): dec(v) for n, v in zip(names, vals, strict=True)}}
        data[r, c, 0] = head(0) + enc([vals])
        if texts:
            sid = s['id'][:4]
            if rng.random() < .6:
                e['text'] = f'{sid} {t:%d%H%M}Z AUTO 10SM'
                data[r, c, 1] = head(1) + R.strwords(e['text'])
            if rng.random() < .4:
                e['spcl'] = f'{sid} {t:%d%H%M}Z SPECIAL'
                data[r, c, 2] = head(2) + R.strwords(e['spcl'])
            if rng.random() < .2 and (e['text'] or e['spcl']):
                del data[r, c, 0]
                e['values'] = {}
        cells.append(e)

    if layout == 'standard':
        rk, ck = dkeys, keys
        rows = [dw(t) for t in tms]
        cols = [R.stn_words(s, keys) for s in stations]
        for r, t in enumerate(tms):
            for c, s in enumerate(stations):
                if rng.random() < dens or (r == c == 0):
                    cell(r, c, s, t)
    elif layout == 'climate':
        rk, ck = keys, dkeys
        if len(stations) < 2:
            stations.append({**stations[0], 'num': 4321, 'id': 'KZZZ'})
        rows = [R.stn_words(s, keys) for s in stations]
        cols = [dw(t) for t in tms]
        for r, s in enumerate(stations):
            for c, t in enumerate(tms):
                if rng.random() < dens or (r == c == 0):
                    cell(r, c, s, t)
    else:
        rk, ck = ['GRID'], keys + dkeys
        rows = [[R.I(1)]]
        cols = []
        for s in stations:
            for t in tms:
                if rng.random() < dens or not cols:
                    m = {**s, 'lat': rng.randint(-9000, 9000) / 100,
                         'lon': rng.randint(-18000, 18000) / 100}
                    cols.append(R.stn_words(m, keys) + dw(t))
                    if rng.random() < .9 or len(cols) == 1:
                        cell(0, len(cols) - 1, m, t)
    desc = dict(file_type=1, data_source=rng.choice([1, 2, 3, 102]), row_keys=rk, rows=rows,
                col_keys=ck, cols=cols, parts=parts, data=data,
                shuffle=rng if rng.random() < .5 else None, gap=rng.choice([0, 0, 3]))
    return desc, layout, sorted(cells, key=lambda e: (e['row'], e['col']))


MAN = [1000.0, 925.0, 850.0, 700.0, 500.0, 400.0, 300.0, 250.0, 200.0, 150.0, 100.0]
ABV = [70.0, 50.0, 30.0, 20.0, 10.0]


def sounding(rng, merged=True):
    nst, nt = rng.choice([(1, 1), (1, 3), (3, 1), (2, 2), (rng.randint(1, 6), rng.randint(1, 4))])
    stations = gen.distinct(rng, gen.station, nst, lambda s: (s['id'], s['num']))
    if nst > 1 and rng.random() < .3:
        stations[1] = {**stations[1], 'id': stations[0]['id']}
    tms = gen.times(rng, nt)
    if rng.random() < .3:
        rng.shuffle(tms)
    names = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'][:rng.randint(2, 6)]
    dtype, pars, enc, dec = real_or_pack(rng, names)
    keys = R.STN[:8]
    parts = [dict(name='SNDT', header=1, dtype=dtype, params=pars)]
    cells, data = [], {}
    dens = rng.choice([1, 1, .6, .2])
    rows = [[R.I(R.date_word(t)), R.I(R.time_word(t))] for t in tms]
    cols = [R.stn_words(s, keys) for s in stations]
    for r, t in enumerate(tms):
        for c, s in enumerate(stations):
            if not (rng.random() < dens or (r == c == 0)):
                continue
            n = rng.choice([1, 2, 5, rng.randint(1, 20)])
            ps = sorted(rng.sample(range(100, 10500), n), reverse=True)
            recs = [[p / 10] + [tenth(rng, -90, 400) for _ in names[1:]] for p in ps]
            data[r, c, 0] = [R.I(R.time_word(t))] + enc(recs)
            cells.append({'row': r, 'col': c, 'dt': t, 'stn': s,
                          'values': {nm.lower(): [dec(x[k]) for x in recs]
                                     for k, nm in enumerate(names)}})
    desc = dict(file_type=2, data_source=4, row_keys=['DATE', 'TIME'], rows=rows, col_keys=keys,
                cols=cols, parts=parts, data=data,
                shuffle=rng if rng.random() < .5 else None, gap=rng.choice([0, 0, 3]))
    return desc, cells


def inrange(v, box):
    return box is None or (box[0] <= v['lon'] <= box[1] and box[2] <= v['lat'] <= box[3])


def box_arg(rng, stations):
    """A bounding box, often with a station exactly on an edge."""
    s = rng.choice(stations)
    o = rng.choice(stations)
    k = rng.random()
    if k < .4:
        left, right = sorted([s['lon'], o['lon']])
        bot, top = sorted([s['lat'], o['lat']])
    elif k < .6:
        left = right = s['lon']
        bot = top = s['lat']
    elif k < .8:
        left, right = s['lon'] - 5, s['lon'] + 5
        bot, top = s['lat'] - 5, s['lat'] + 5
    else:
        left, right = sorted([rng.uniform(-180, 180), rng.uniform(-180, 180)])
        bot, top = sorted([rng.uniform(-90, 90), rng.uniform(-90, 90)])
    return rng.choice([tuple, list])((left, right, bot, top))


def date(t):
    return datetime.date(t.year, t.month, t.day)
