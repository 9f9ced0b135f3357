"""C28: coordinate helpers and JSON export preserve coordinates."""
import datetime
import json
import logging

import numpy as np

from contracts import vgf_coords
from vp.api import Fail, Task, limit

_V = 'gempakio.decode.vgf.VectorGraphicFile.'
FUNCTIONS = [_V + n for n in ('close_coordinates', 'flip_coordinates', 'to_json')] + [
    'gempakio.decode.vgf.NumpyEncoder.default']
TRUSTED = ['json.dumps serialises the objects it is given, asking the encoder for the ones it does not know', 'float() of a text with d decimals is a nearest multiple of 10**-d of the formatted value', 'np.concatenate and slices as modelled in pyvc.nparr']
ASSUMPTIONS = ['at least one coordinate (an empty polygon has no first point)', 'float64 arithmetic treated as real arithmetic']


def proofs(tier):
    return [Task(n, lambda dl, n=n: vgf_coords.run(n, dl), functions=FUNCTIONS, timeout=600)
            for n in vgf_coords.PARTS]



MONITOR_SECONDS = 10
MONITORS = ['helpers', 'export']


def same(a, b, kind, what, case):
    if kind is list and not isinstance(a, list) or \
            kind is np.ndarray and not isinstance(a, np.ndarray):
        raise Fail(f'{what} gave {type(a).__name__} for {kind.__name__}', case)
    if len(a) != len(b) or any(x != y for x, y in zip(a, b)):
        raise Fail(f'{what} gave {list(a)[:10]}, expected {list(b)[:10]}', case)


def helpers(rng, log):
    from gempakio.decode.vgf import VectorGraphicFile as V
    while log.more():
        n = rng.choice([1, 2, 3, 7, 100])
        xs = [rng.choice([rng.randint(-180, 180), rng.uniform(-180, 180)]) for _ in range(n)]
        ys = [rng.uniform(-90, 90) for _ in range(n)]
        if rng.random() < .3:
            xs, ys = [float(rng.randint(0, 2)) for _ in xs], [float(rng.randint(0, 2)) for _ in ys]
        kind = rng.choice([list, np.ndarray])
        conv = list if kind is list else np.array
        x, y = conv(xs), conv(ys)
        x0, y0 = list(x), list(y)
        case = {'x': xs[:10], 'y': ys[:10], 'type': kind.__name__}
        with limit(5, 'helper', case):
            cx, cy = V.close_coordinates(x, y)
            same(cx, x0 + x0[:1], kind, 'closing', case)
            same(cy, y0 + y0[:1], kind, 'closing', case)
            same(x, x0, kind, 'after closing, the given x', case)
            same(y, y0, kind, 'after closing, the given y', case)
            fx, fy = V.flip_coordinates(x, y)
            same(fx, x0[::-1], kind, 'flipping', case)
            same(fy, y0[::-1], kind, 'flipping', case)
            gx, gy = V.flip_coordinates(fx, fy)
            same(gx, x0, kind, 'flipping twice', case)
            same(gy, y0, kind, 'flipping twice', case)
            same(x, x0, kind, 'after flipping, the given x', case)
        other = tuple(ys) if rng.random() < .3 else (np.array(ys) if kind is list else ys)
        for f in (V.close_coordinates, V.flip_coordinates):
            for a, b in ((x, other), (other, x), (tuple(xs), tuple(ys))):
                try:
                    f(a, b)
                except TypeError:
                    continue
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'{f.__name__} of mixed types raised {type(e).__name__}',
                               case) from None
                raise Fail(f'{f.__name__} accepted {type(a).__name__} and {type(b).__name__}',
                           case)
        log.case((kind.__name__, tuple(xs), tuple(ys)), True, case)


def plain(v):
    """A decoded value as JSON holds it."""
    if isinstance(v, np.ndarray):
        return [('near', float(x)) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, int):
        return int(v)
    if hasattr(v, '__dict__') and not isinstance(v, (str, float)):
        return {k: plain(x) for k, x in vars(v).items()}
    return v


def equal(got, want):
    if isinstance(want, tuple) and want and want[0] == 'near':
        return isinstance(got, (int, float)) and abs(got - want[1]) <= .0051
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and \
            all(map(equal, got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == {str(k) for k in want} and \
            all(equal(got[str(k)], v) for k, v in want.items())
    return got == want


def export(rng, log):
    from checks.c25 import decode
    from vp import vgfref as R
    logging.disable(logging.CRITICAL)
    ok = [k for k in R.KINDS if k not in ('bad_header',)]
    while log.more():
        items = [R.element(rng, rng.choice(ok)) for _ in range(rng.choice([0, 1, 3, 6]))]
        case = {'kinds': [i[3] for i in items]}
        data = R.file_header(rng) + b''.join(i[0] for i in items)
        if len(data) < 60000:
            case['bytes'] = data.hex()
        v = decode(data, case)
        kw = rng.choice([{}, {}, {'indent': 2}, {'sort_keys': True}])
        with limit(20, 'to_json', case):
            try:
                s = v.to_json(**kw)
                out = json.loads(s)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'to_json raised {type(e).__name__}: {e}', case) from None
        if not isinstance(out, list) or len(out) != len(v.elements):
            raise Fail(f'{len(out)} objects exported for {len(v.elements)} elements', case)
        for o, e in zip(out, v.elements):
            want = {k: plain(x) for k, x in vars(e).items()}
            if set(o) != set(want):
                raise Fail(f'{type(e).__name__}: exported attributes {sorted(o)} are not '
                           f'{sorted(want)}', case)
            for k, w in want.items():
                if not equal(o[k], w):
                    raise Fail(f'{type(e).__name__}.{k} exported as {o[k]!r:.150}, element has '
                               f'{getattr(e, k)!r:.150}', case)
        log.case((tuple(case['kinds']), rng.random()), bool(items))
