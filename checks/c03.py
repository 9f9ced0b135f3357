"""C03: difference-packed and unpacked grids decode point by point as stored."""
import numpy as np

from contracts import grid_decode
from vp import gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakGrid._unpack_grid',
             'gempakio.decode.gempak.GempakFile._fortran_ishift']
TRUSTED = ['numpy array stores and views as modelled in pyvc.nparr', 'IOBuffer.read_struct returns the next fields in order (contract proved in C29)', '_unpack_grib by its contract (proved in C02)', 'ctypes.c_int32 keeps the low 32 bits, signed']
ASSUMPTIONS = ['the arithmetic of reference, differences and scale and its float32 rounding are treated as real arithmetic; the fields themselves are exact machine arithmetic', 'widths 1 to 31, a block holding at least kx * ky fields, kx, ky >= 1; an unpacked block holds exactly kx * ky reals']


def proofs(tier):
    return [Task(p, lambda dl, p=p: grid_decode.run(p, dl), functions=FUNCTIONS, timeout=700)
            for p in grid_decode.PARTS]


MONITOR_SECONDS = 12


def ref_diff(kx, ky, bits, fields, ref, scale, dmin, flag, miss):
    """Reference decoding in float32 grid storage."""
    imax = 2**bits - 1
    out = []
    first = True
    prev = line0 = None
    for j in range(ky):
        started = False
        for i in range(kx):
            f = fields[j * kx + i]
            if flag and f == imax:
                out.append(np.float32(miss))
                continue
            if first:
                v = np.float32(ref)
                first = False
                started = True
                prev = line0 = v
                if True:
                    out.append(v)
                    prev = line0 = ref
                    continue
            base = prev if started else line0
            v = np.float32(base + (dmin + f * scale))
            out.append(v)
            prev = v
            if not started:
                line0 = v
                started = True
    return np.array(out, dtype=np.float32)


def one(rng, log, tmp):
    from gempakio import GempakGrid
    kx, ky = rng.choice([(1, 1), (2, 1), (1, 2), (3, 4), (8, 8), (rng.randint(1, 14),
                                                                rng.randint(1, 14))])
    n = kx * ky
    miss = rng.choice([-9999.0, -9999.0, 0.0, -999.0])
    endian = rng.choice('<>')
    kind = rng.choice(['diff', 'diff', 'diff', 'none'])
    grids, wants = [], []
    for k in range(rng.choice([1, 1, 2])):
        if kind == 'none':
            vals = gen.values(rng, n, miss)
            blk = R.none_block(kx, ky, vals)
            want = np.array(vals, dtype=np.float32)
            case = {'kind': kind, 'kx': kx, 'ky': ky, 'values': vals}
        else:
            bits = rng.randint(1, 31)
            imax = 2**bits - 1
            st = rng.choice(['rand', 'rand', 'ones', 'zero', 'low', 'firstmiss', 'rowmiss'])
            fields = [rng.getrandbits(bits) if st != 'low' else rng.randint(0, min(3, imax))
                      for _ in range(n)]
            if st == 'ones':
                fields = [imax if rng.random() < .5 else v for v in fields]
            if st == 'zero':
                fields = [0] * n
            if st == 'firstmiss':
                for q in range(min(n, rng.randint(1, kx + 1))):
                    fields[q] = imax
            if st == 'rowmiss':
                j = rng.randrange(ky)
                for q in range(kx):
                    fields[j * kx + q] = imax
                if j + 1 < ky:
                    fields[(j + 1) * kx] = imax
            flag = rng.choice([0, 1, -1, 1])
            ref = R.f32(rng.choice([0.0, 273.15, -40.5]))
            # steps exactly representable, so that only the fields decide the values
            scale = R.f32(2.0 ** rng.randint(-10, 0))
            dmin = R.f32(rng.choice([0.0, -2.0 ** (bits - 1) * scale, 1.5]))
            blk = R.diff_block(kx, ky, bits, fields, ref, scale, dmin, flag)
            want = ref_diff(kx, ky, bits, fields, ref, scale, dmin, flag, miss)
            case = {'kind': kind, 'kx': kx, 'ky': ky, 'bits': bits, 'fields': fields[:80],
                    'missing_flag': flag, 'ref': ref, 'scale': scale, 'diffmin': dmin,
                    'missing': miss, 'endian': endian}
        grids.append(dict(gdt1=240102, gtm1=k * 100, lv1=k, vc=1, parm='TMPK', block=blk))
        wants.append((want, case))
    p = tmp.put(R.build(R.grid_desc(rng, grids, kx, ky, missing=miss), endian))
    with limit(30, 'gdxarray', wants[0][1]):
        g = GempakGrid(p)
        for k, (want, case) in enumerate(wants):
            got = g.gdxarray(level=k)
            if len(got) != 1:
                raise Fail(f'{len(got)} grids for level {k}', case)
            a = got[0].values.reshape(-1)
            w = np.where(want == np.float32(miss), np.nan, want)
            if a.shape != w.shape or not np.array_equal(a, w, equal_nan=True):
                q = int(np.argmax(~((a == w) | (np.isnan(a) & np.isnan(w))))) \
                    if a.shape == w.shape else -1
                raise Fail(f'point {q}: got {a[q]!r}, stored {w[q]!r}', case)
            log.case(str(sorted(case.items()))[:400])


def monitor(rng, log):
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
