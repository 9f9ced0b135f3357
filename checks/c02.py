"""C02: bit-packed grids decode to the exact bit field of every point."""
import numpy as np

from contracts import grib_decode
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak._unpack_grib']
TRUSTED = ['numpy array semantics of the operations used, as modelled in pyvc.nparr']
ASSUMPTIONS = ['float32/float64 arithmetic of reference + field*scale is treated as real '
               'arithmetic; the field itself is exact machine arithmetic',
               'number of points * bits < 2**31 (index arithmetic in int64)']


def proofs(tier):
    import gempakio.decode.gempak as G
    return [Task(f'_unpack_grib nbits={lo}..', (lambda dl, nb=nb: grib_decode.prove(
        G._unpack_grib, nb, deadline=dl)), functions=FUNCTIONS)
        for nb in [list(range(k, 32, 4)) for k in (1, 2, 3, 4)] for lo in [nb[0]]]


def ref_fields(words, nbits, n):
    """Field i: the nbits starting at bit i * nbits of the words' big-endian bits."""
    w = np.append(words.view(np.uint32).astype(np.uint64), np.uint64(0))
    bit = np.arange(n, dtype=np.int64) * nbits
    pair = (w[bit // 32] << np.uint64(32)) | w[bit // 32 + 1]
    field = (pair >> (64 - nbits - bit % 32).astype(np.uint64)) & np.uint64(2**nbits - 1)
    return field.tolist()


def one(rng, log, n=None, nbits=None, style=None):
    import gempakio.decode.gempak as G
    n = n or rng.choice([1, 2, 3, 5, 7, 8, 9, 31, 32, 33, 64, 65, rng.randint(1, 400)])
    nbits = nbits or rng.randint(1, 31)
    lw = (n * nbits + 31) // 32
    style = style or rng.choice(['rand', 'ones', 'hi', 'zero', 'sparse'])
    gen = {'rand': lambda: rng.getrandbits(32), 'ones': lambda: 0xFFFFFFFF,
           'hi': lambda: 0x80000000 | rng.getrandbits(32), 'zero': lambda: 0,
           'sparse': lambda: rng.choice([0, 0xFFFFFFFF, 1, 0x80000000])}[style]
    if lw > 1000:
        words = np.random.default_rng(rng.getrandbits(32)).integers(
            0, 2**32, lw, dtype=np.uint32).view(np.int32)
    else:
        words = np.array([gen() for _ in range(lw)], dtype=np.uint32).view(np.int32)
    ref = float(rng.choice([0, -12.5, 1000.25]))
    scale = float(2.0 ** rng.randint(-8, 4))
    miss = rng.choice([None, -9999.0, 0.0])
    case = {'n': n, 'nbits': nbits, 'words': words.tolist()[:60], 'ref': ref, 'scale': scale,
            'missing': miss}
    before = words.copy()
    with limit(20, '_unpack_grib', case):
        got = G._unpack_grib(words, nbits, n, ref, scale, missing_value=miss)
    got = np.asarray(got)
    if got.shape != (n,):
        raise Fail(f'shape {got.shape} for {n} points', case)
    if not np.array_equal(before, words):
        raise Fail('packed words modified', case)
    imax = 2**nbits - 1
    for i, f in enumerate(ref_fields(words, nbits, n)):
        want = miss if (f == imax and miss is not None) else ref + f * scale
        if got[i] != want:
            raise Fail(f'point {i}: got {got[i]!r}, field {f}, expected {want!r}', case)
    log.case((n, nbits, style, miss is None, words[:4].tobytes()))


def monitor(rng, log):
    for nbits in range(1, 32):
        for n in (1, 2, 33):
            one(rng, log, n, nbits, 'rand')
    for nbits in (31, 16, rng.randint(1, 30)):
        one(rng, log, rng.randint(70000, 150000), nbits, 'rand')
    while log.more():
        one(rng, log)


MONITOR_SECONDS = 8
