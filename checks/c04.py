"""C04: real data packed into integers decode with their own scale and offset."""
import types

import numpy as np

from contracts import real_decode
from vp import gemref as R
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakFile._unpack_real',
             'gempakio.decode.gempak.GempakFile._fortran_ishift']
TRUSTED = ['numpy array slices, stores and views as modelled in pyvc.nparr', 'ctypes.c_int32 keeps the low 32 bits, signed', 'sum() of a list is the prefix sum of its length']
ASSUMPTIONS = ['the arithmetic of (field + offset) * 10**scale and its float32 rounding are treated as real arithmetic; the field itself is exact machine arithmetic', 'every bit width is 1 to 32, the words of the buffer are signed 32-bit integers, the data length is at least 1']


def proofs(tier):
    return [Task(f'_unpack_real {p}', lambda dl, p=p: real_decode.run(p, dl),
                 functions=FUNCTIONS, timeout=600) for p in real_decode.PARTS]


MONITOR_SECONDS = 8


def one(rng, log):
    from gempakio.decode.gempak import GempakFile
    np_ = rng.choice([1, 2, 3, 5, 8, rng.randint(1, 30)])
    nrec = rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
    style = rng.choice(['any', 'any', 'even', 'wide', 'narrow'])
    bits = [{'any': lambda: rng.randint(1, 32), 'even': lambda: rng.choice([8, 16, 32]),
             'wide': lambda: rng.randint(28, 32), 'narrow': lambda: rng.randint(1, 6)}[style]()
            for _ in range(np_)]
    scale = [rng.randint(-4, 4) for _ in range(np_)]
    offset = [rng.choice([0, rng.randint(-1000, 1000)]) for _ in range(np_)]
    miss = rng.choice([-9999.0, -9999.0, 0.0])
    words, recs = [], []
    for _ in range(nrec):
        f = [rng.choice([rng.getrandbits(b), 2**b - 1, 0, 2**(b - 1)]) for b in bits]
        recs.append(f)
        w = R.pack_record(f, bits)
        if sum(bits) % 32 and rng.random() < .5:   # unused bits of the last word may hold anything
            w[-1] = R.tosigned(w[-1] | (rng.getrandbits(32) << (sum(bits) % 32)))
        words += w
    par = {'name': [f'P{k}' for k in range(np_)], 'scale': scale, 'offset': offset, 'bits': bits}
    case = {'parameters': par, 'words': words, 'missing': miss}
    me = GempakFile.__new__(GempakFile)
    me.dm_label = types.SimpleNamespace(missing_float=miss)
    before = repr(par), list(words)
    with limit(20, '_unpack_real', case):
        buf = words if rng.random() < .5 else tuple(words)
        got = me._unpack_real(buf, par, len(words))
    if (repr(par), list(buf)) != before:
        raise Fail('arguments modified', case)
    want = []
    for f in recs:
        for k, v in enumerate(f):
            want.append(np.float32(miss) if v == 2**bits[k] - 1
                        else np.float32((v + offset[k]) * 10 ** scale[k]))
    if len(got) != len(want):
        raise Fail(f'{len(got)} values for {nrec} records of {np_}', case)
    for k, (a, b) in enumerate(zip(got, want, strict=True)):
        if not np.isclose(a, b, rtol=2e-7, atol=0):
            raise Fail(f'record {k // np_} parameter {k % np_}: got {a!r}, stored {b!r}', case)
    pw = (sum(bits) + 31) // 32
    if pw > 1:
        bad = len(words) + rng.randint(1, pw - 1)
        try:
            me._unpack_real(list(words) + [0] * pw, par, bad)
        except ValueError:
            pass
        else:
            raise Fail(f'data length {bad} with records of {pw} words accepted', case)
    log.case(str(case)[:300])


def files(rng, log):
    """The same through whole files: packed soundings and surface data."""
    from gempakio import GempakSounding, GempakSurface
    with R.Scratch() as tmp:
        while log.more():
            n = rng.randint(1, 6)
            kind = rng.choice(['snd', 'std', 'ship', 'climate'])
            pars, bits = [], []
            names = ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT'] if kind == 'snd' else \
                ['PMSL', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'VSBY']
            for k in range(n):
                bits.append(rng.randint(1, 32))
                pars.append((names[k], rng.randint(-3, 2), rng.randint(-50, 50), bits[k]))
            nrec = rng.randint(1, 4) if kind == 'snd' else 1
            recs = [[rng.choice([rng.getrandbits(b), 2**b - 1]) for b in bits] for _ in range(nrec)]
            if kind == 'snd':
                recs.sort(key=lambda r: -r[0])
                recs = [r for k, r in enumerate(recs) if k == 0 or r[0] != recs[k - 1][0]]
                recs = [r for r in recs if r[0] != 2**bits[0] - 1] or [[0] + recs[0][1:]]
            words = [R.I(w) for r in recs for w in R.pack_record(r, bits)]
            s = dict(id='KMSN', num=72641, lat=43.1, lon=-89.3, elv=264, st='WI', co='US')
            dt = [R.I(240102), R.I(1200)]
            keys = R.STN if kind != 'snd' else R.STN[:8]
            if kind in ('snd', 'std'):
                rk, rows, ck, cols = ['DATE', 'TIME'], [dt], keys, [R.stn_words(s, keys)]
            elif kind == 'ship':
                rk, rows = ['DATA'], [[R.I(1)]]
                ck, cols = keys + ['DATE', 'TIME'], [R.stn_words(s, keys) + dt]
            else:
                rk, rows, ck, cols = keys, [R.stn_words(s, keys), R.stn_words({**s, 'num': 5}, keys)], \
                    ['DATE', 'TIME'], [dt]
            part = 'SNDT' if kind == 'snd' else 'SFDT'
            endian = rng.choice('<>')
            desc = dict(file_type=2 if kind == 'snd' else 1, data_source=4, row_keys=rk, rows=rows,
                        col_keys=ck, cols=cols,
                        parts=[dict(name=part, header=1, dtype=4, params=pars)],
                        data={(0, 0, 0): [R.I(1200)] + words})
            p = tmp.put(R.build(desc, endian))
            case = {'kind': kind, 'params': pars, 'records': recs, 'endian': endian}

            def val(r, k, pars=pars, bits=bits):
                return np.nan if r[k] == 2**bits[k] - 1 else \
                    (r[k] + pars[k][2]) * 10.0 ** pars[k][1]

            with limit(30, 'decode', case):
                if kind == 'snd':
                    ds = GempakSounding(p).snxarray()[0]
                    for k in range(n):
                        nm = pars[k][0].lower()
                        got = np.asarray(ds[nm].values, dtype=float).reshape(-1)
                        want = np.array([val(r, k) for r in recs])
                        if nm != 'pres':
                            want = np.where(want == -9999.0, np.nan, want)
                        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6,
                                                                      equal_nan=True):
                            raise Fail(f'{nm}: got {got.tolist()}, stored {want.tolist()}', case)
                else:
                    out = GempakSurface(p).sfjson()[0]['values']
                    for k in range(n):
                        want = val(recs[0], k)
                        want = -9999.0 if np.isnan(want) else want
                        if not np.isclose(out[pars[k][0].lower()], want, rtol=1e-6):
                            raise Fail(f'{pars[k][0]}: got {out[pars[k][0].lower()]}, '
                                       f'stored {want}', case)
            log.case(str(case)[:300])


def monitor(rng, log):
    while log.more():
        one(rng, log)


MONITORS = ['monitor', 'files']
