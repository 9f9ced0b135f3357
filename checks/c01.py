"""C01: packed grids unpack to the original within half a quantisation step."""
from fractions import Fraction

import numpy as np

from contracts import grib_decode, grib_encode
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.encode.gempak.pack_grib', 'gempakio.decode.gempak._unpack_grib']
TRUSTED = ['numpy array semantics of the operations used, as modelled in pyvc.nparr', 'round() and np.round return a nearest integer and never decrease', '2**n on integers n is the real power of two']
ASSUMPTIONS = ['float32/float64 arithmetic of the scaling is treated as real arithmetic; the packed words are exact machine arithmetic', 'number of points * bits < 2**31 (index arithmetic in int64)', 'the returned step is 1 / S for the scale S of the proof (scale **= -1)']


def proofs(tier):
    import gempakio.decode.gempak as G
    out = [Task('pack_grib ' + n, lambda dl, n=n: grib_encode.run(n, dl), functions=FUNCTIONS[:1],
                timeout=600) for n in grib_encode.ORDER]
    return out + [Task(f'_unpack_grib nbits={nb[0]}..', (lambda dl, nb=nb: grib_decode.prove(
        G._unpack_grib, nb, deadline=dl)), functions=FUNCTIONS[1:])
        for nb in [list(range(k, 32, 4)) for k in (1, 2, 3, 4)]]



MONITOR_SECONDS = 12


def one(rng, log, ny=None, nx=None, nbits=None, style=None):
    from gempakio.decode.gempak import _unpack_grib
    from gempakio.encode.gempak import pack_grib
    ny = ny or rng.choice([1, 1, 2, 3, 5, rng.randint(1, 20)])
    nx = nx or rng.choice([1, 2, 3, 7, 31, 32, 33, rng.randint(1, 40)])
    nbits = nbits or rng.randint(1, 31)
    style = style or rng.choice(['unit', 'wide', 'const', 'top', 'big', 'fine', 'near', 'half'])
    miss = rng.choice([-9999.0, -9999.0, 0.0, 1e20, -1.0])
    imax = 2**nbits - 1
    n = ny * nx
    if style == 'const':
        v = [rng.choice([273.15, -3.0, 1e-3])] * n
    elif style == 'unit':
        v = [rng.random() for _ in range(n)]
    elif style == 'wide':
        v = [rng.uniform(-1e5, 1e5) for _ in range(n)]
    elif style == 'big':
        v = [rng.choice([0.0, 1.0, 2.0**30, 2.0**31 - 1, 1e9]) for _ in range(n)]
    elif style == 'fine':
        v = [1000 + rng.random() * 1e-7 for _ in range(n)]
    elif style == 'half':
        v = [rng.randint(0, 2 * imax) / 2 for _ in range(min(n, 3))] + [
            rng.randint(0, 64) / 2 for _ in range(max(0, n - 3))]
    else:
        # maximum close to the power of two where the scale changes
        e = 2.0 ** rng.randint(-12, 4)
        top = (imax + rng.choice([-1, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 1])) * e
        v = [0.0, top] + [rng.random() * top for _ in range(n)]
        v = [x + (5.0 if style == 'near' else 0.0) for x in v[:n]]
    p = rng.choice([0, 0, 0.1, 0.5, 0.95, 1])
    isms = [rng.random() < p for _ in range(n)]
    if rng.random() < 0.1:
        isms = [False] * n
        isms[rng.randrange(n)] = True
    v = [miss if m else (x if x != miss else x + 1) for m, x in zip(isms, v)]
    isms = [x == miss for x in v]
    grid = np.array(v, dtype=float).reshape(ny, nx)
    if rng.random() < 0.2:
        grid = np.asfortranarray(grid)
    before = grid.copy()
    case = {'shape': [ny, nx], 'nbits': nbits, 'style': style, 'missing': miss,
            'values': v[:60]}
    ok = [Fraction(x) for x, m in zip(v, isms) if not m]
    rng_ = max(ok) - min(ok) if ok else Fraction(0)
    with limit(20, 'pack_grib', case):
        try:
            ref, scale, out = pack_grib(grid, miss, nbits=nbits)
        except ValueError:
            if rng_ > 2**31 - 2:
                log.case('range too large')
                return
            raise Fail('a grid that fits is refused', case) from None
    if not np.array_equal(before, grid):
        raise Fail('the grid was modified', case)
    lw = (n * nbits + 31) // 32
    if len(out) != lw:
        raise Fail(f'{len(out)} words for {n} points of {nbits} bits, expected {lw}', case)
    words = [int(w) for w in out]
    if any(w < -2**31 or w > 2**31 - 1 for w in words):
        raise Fail('a packed word is not a 32-bit integer', case)
    step = Fraction(float(scale))
    if step <= 0 or (step.numerator & (step.numerator - 1)) or (
            step.denominator & (step.denominator - 1)):
        raise Fail(f'step {scale} is no power of two', case)
    if rng_ > Fraction(2) ** -90 or any(isms) and rng_:
        slack = Fraction(1, 1000)
        if rng_ and rng_ / step > imax - Fraction(1, 2) + slack:
            raise Fail(f'the range {float(rng_)} does not fit {nbits} bits at step {scale}', case)
        if rng_ > Fraction(2) ** -90 and 2 * rng_ / step < imax - Fraction(1, 2) - slack:
            raise Fail(f'step {scale} is not the finest that fits range {float(rng_)} in '
                       f'{nbits} bits', case)
    with limit(20, '_unpack_grib', case):
        got = _unpack_grib(np.array(words, dtype=np.int32), nbits, n, float(ref), float(scale),
                           missing_value=miss)
    for i, (x, m) in enumerate(zip(v, isms)):
        if m:
            if got[i] != miss:
                raise Fail(f'missing point {i} unpacks to {got[i]!r}', case)
            continue
        # exactly quantised; the unpacked sum itself is rounded to a float
        err = abs(Fraction(float(got[i])) - Fraction(x))
        tol = step / 2 + Fraction(max(abs(x), abs(float(ref)), 1e-300)) * Fraction(2) ** -49
        if err > tol:
            raise Fail(f'point {i}: {x!r} unpacks to {got[i]!r}, half a step is '
                       f'{float(step / 2)}', case)
    log.case((ny, nx, nbits, style, tuple(v[:3])))


def monitor(rng, log):
    from gempakio.encode.gempak import pack_grib
    for nbits in (0, -1, 32, 33, 64):
        for g in (np.zeros((2, 2)), np.arange(6.).reshape(2, 3)):
            try:
                pack_grib(g, -9999.0, nbits=nbits)
            except ValueError:
                log.case(('refused', nbits))
            else:
                raise Fail(f'{nbits} bits accepted', {'nbits': nbits})
    for nbits in range(1, 32):
        for ny, nx in ((1, 1), (1, 2), (3, 11)):
            for style in ('unit', 'top'):
                one(rng, log, ny, nx, nbits, style)
    while log.more():
        one(rng, log)


MONITORS = ['monitor']
