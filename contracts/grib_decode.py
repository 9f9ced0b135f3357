"""C02: _unpack_grib extracts, for every point, its bit field of the packed word stream.

Contract (proved for every length, every word content, nbits = 1..31):
    result[i] == missing                      if field(i) is all ones and missing is not None
    result[i] == reference + field(i)*scale   otherwise
with field(i) the nbits bits starting at bit i*nbits (most significant bit of word 0 first).
"""
import numpy as np
import z3

from pyvc.core import Ctx, SBV, SInt, SReal, mkbool, ite, mkreal
from pyvc.interp import Interp
from pyvc.models import Models
from pyvc.nparr import SArr, bvval
from .hints import CumsumHint

WORDS = z3.Function('packed', z3.IntSort(), z3.BitVecSort(32))


def zi(x):
    return x.t if isinstance(x, SInt) else z3.IntVal(int(x))


def field_spec(nbits, q, r):
    """64-bit field value of point i = 32q + r."""
    bit = r * nbits
    w0, off = bit // 32, bit % 32
    wi = q * nbits + w0
    a = WORDS(zi(wi))
    if off + nbits <= 32:
        f = z3.LShR(a, 32 - off - nbits) & z3.BitVecVal(2**nbits - 1, 32)
        return z3.simplify(f)
    lo = off + nbits - 32
    b = WORDS(zi(wi + 1))
    f = ((a << lo) | z3.LShR(b, 32 - lo)) & z3.BitVecVal(2**nbits - 1, 32)
    return z3.simplify(f)


def prove(fn, nbits_list, timeout=10000, deadline=None):
    out = []
    for nbits in nbits_list:
        c = Ctx(f'_unpack_grib[nbits={nbits}]', timeout_ms=timeout, deadline=deadline,
                max_paths=20000)
        c.state_global = {}

        def body(c, nbits=nbits):
            it = Interp(Models())
            n = SInt.var('kxky')
            c.assume(n >= 1)
            q = SInt.var('q')
            c.assume(q >= 0)
            lendat = SInt.var('lendat')
            lemma = c.choose([True, False])
            c.state['lemma_mode'] = lemma
            if lemma:
                i, r = SInt.var('i'), 0
                c.assume(i >= 0)
            else:
                r = c.choose(range(32))
                i = q * 32 + r
            c.assume(i < n)
            c.assume(lendat * 32 >= n * nbits)
            c.state['ghosts'] = [(1, (i,)), (2, (i, 0)), (2, (i, 1))]
            c.state['cumsum_hint'] = CumsumHint(
                lambda k: ((k + 1) * nbits - 1) // 32, 32, f'nbits={nbits}')
            c.state['index_check'] = lambda arr, j, nn: c.oblige(
                'index_in_bounds', (j < nn) if arr.dtype == np.int32 and arr.ndim == 1 else True)
            packed = SArr((lendat,), np.int32, lambda k: SBV(WORDS(zi(k)), True))
            ref = SReal.var('reference')
            scale = SReal.var('scale')
            has_miss = False if lemma else c.choose([True, False])
            miss = SReal.var('missing') if has_miss else None
            c.inputs = {'kxky': n.t, 'q': q.t, 'r': z3.IntVal(r), 'lendat': lendat.t,
                        'nbits': z3.IntVal(nbits)}
            res = it.call(fn, (packed, nbits, n, ref, scale), {'missing_value': miss})
            if lemma:
                return
            c.cover(f'reach r={r}')
            c.oblige('length', mkbool(zi(res.shape[0]) == n.t))
            got = res.at(i)
            f = SBV(field_spec(nbits, q, r), False)
            val = ref + bvval(f) * scale
            if has_miss:
                want = ite(f == 2**nbits - 1, miss, val)
            else:
                want = val
            c.oblige('field_value', got == want)

        c.explore(body)
        out.append(c)
    return out


if __name__ == '__main__':
    import time
    import gempakio.decode.gempak as G
    import sys
    for nb in (map(int, sys.argv[1:]) if len(sys.argv) > 1 else (1, 5, 8, 16, 17, 31)):
        t = time.time()
        c = prove(G._unpack_grib, [nb])[0]
        bad = [o for o in c.obligations if o.status != 'proved']
        print(nb, len(c.obligations), 'bad', len(bad), 'paths', c.paths,
              'q', c.queries, f'{c.solver_time:.1f}s {time.time()-t:.1f}s', set(o.backend for o in c.obligations))
        for o in bad[:4]:
            print('  ', o.name, o.status, o.detail[:300], (o.model or '')[:400])
