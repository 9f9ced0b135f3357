"""C23: every vector graphic element encodes to exactly its declared size."""
import os
import struct
import tempfile

import numpy as np

from contracts import vgf_encode as proved
from vp import vgfgen as G
from vp.api import Fail, Task, limit

E = 'gempakio.encode.vgf.'
FUNCTIONS = [E + f'{c}.{n}' for c, ns in {
    'Element': '_make_element_header', 'LineBase': '__init__ _bounds', 'Line': 'encode',
    'SpecialLine': 'encode', 'Front': 'encode', 'TextBase': 'text text_size',
    'SpecialText': 'encode', 'SymbolBase': 'encode', 'FileHeader': 'encode',
    'VGFile': 'add_element from_elements to_vgf'}.items() for n in ns.split()]
TRUSTED = ['struct packing of each field is exact for values in its range (modelled field by field)', 'np.array/astype/tobytes of a float32 array (modelled)', 'file objects: write appends']
ASSUMPTIONS = ['reals are mathematical except that packing as float32 rounds (an uninterpreted rounding)', 'the file of several elements is proved for 0, 1, 2, 3 and 5 elements whose encodings are arbitrary byte strings; one element at a time its encoding is proved for any number of points, any attribute values and any text']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: proved.run(n, b, dl), functions=FUNCTIONS,
                 bounded='0, 1, 2, 3 and 5 elements' if n == 'file' else None)
            for n, b in proved.ENCODE.items()]


MONITOR_SECONDS = 12
MONITORS = ['elements', 'files']


def encode(m):
    try:
        with limit(10, 'encode', m.case()):
            return m.el.encode()
    except Fail:
        raise
    except Exception as e:  # noqa: BLE001
        raise Fail(f'{m.kind}.encode raised {type(e).__name__}: {e}', m.case()) from None


def build(rng, **kw):
    try:
        return G.make(rng, **kw)
    except Exception as e:  # noqa: BLE001
        raise Fail(f'constructing or changing an element with documented values raised '
                   f'{type(e).__name__}: {e}', None) from None


def check_bytes(m, b):
    case = dict(m.case(), encoding=bytes(b[:120]).hex())
    h = struct.unpack('>3Bb4B4i4f', b[:40])
    if h[11] != len(b):
        raise Fail(f'{m.kind} encodes to {len(b)} bytes, its header declares {h[11]}', case)
    if m.kind in G.LINEAR:
        n, = struct.unpack('>i', b[40:44])
        want = len(m.st['lat'])
        if n != want:
            raise Fail(f'{m.kind} of {want} points states {n}', case)
        la = np.frombuffer(b[-8 * n:-4 * n], '>f4')
        lo = np.frombuffer(b[-4 * n:], '>f4')
        box = (la.min(), lo.min(), la.max(), lo.max())
    else:
        la, lo = np.float32(m.st['lat']), np.float32(m.st['lon'])
        box = (la, lo, la, lo)
    if tuple(np.float32(h[12:])) != tuple(np.float32(box)):
        raise Fail(f'{m.kind} header bounds {h[12:]} for coordinates within {box}', case)
    ref = m.bytes()
    if b != ref:
        i = next((k for k in range(min(len(b), len(ref))) if b[k] != ref[k]),
                 min(len(b), len(ref)))
        raise Fail(f'{m.kind} encoding differs from its attributes at byte {i} '
                   f'({"header" if i < 40 else "body"})', dict(case, reference=ref[:120].hex()))


def elements(rng, log):
    while log.more():
        m = build(rng)
        check_bytes(m, encode(m))
        for _ in range(rng.choice([0, 2, 6])):
            try:
                m.random_change(rng)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'{m.history[-1]} raised {type(e).__name__}: {e}', m.case()) from None
            check_bytes(m, encode(m))
        log.case((m.kind, tuple(m.history)), True, m.case())


def files(rng, log):
    from gempakio.encode.vgf import VGFile
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.vgf')
        while log.more():
            ms = [build(rng, changes=rng.choice([0, 3]), hi_points=30)
                  for _ in range(rng.choice([0, 1, 2, 5, 9]))]
            if ms and rng.random() < .3:
                ms.append(ms[0])
            case = {'elements': [m.case() for m in ms[:6]]}
            with limit(10, 'writing', case):
                if rng.random() < .5:
                    f = VGFile.from_elements(*[m.el for m in ms])
                else:
                    f = VGFile()
                    for m in ms:
                        f.add_element(m.el)
                for m in ms:
                    if rng.random() < .3:
                        m.random_change(rng)
                f.to_vgf(p)
                if rng.random() < .2:
                    f.to_vgf(p)
            b = open(p, 'rb').read()
            if len(b) < 424 or struct.unpack('>i', b[20:24])[0] != 424 or b[1] != 22 or b[2]:
                raise Fail(f'file header of {len(b)} bytes is not a file header element', case)
            want = b''.join(m.bytes() for m in ms)
            if b[424:] != want:
                raise Fail('the file is not its elements\' encodings in the order added', case)
            log.case(tuple(tuple(m.history) for m in ms), bool(ms))
