"""C24: vector graphic files round-trip every element."""
import logging
import os
import tempfile

import numpy as np

from checks.c23 import build
from contracts import vgf_encode as proved
from vp import vgfgen as G
from vp.api import Fail, Task, limit

V = 'gempakio.decode.vgf.VectorGraphicFile.'
E = 'gempakio.encode.vgf.'
FUNCTIONS = [V + n for n in [
    '_decode_elements', '_read_header', '_validate_header', '_decode_lines',
    '_decode_special_lines', '_decode_fronts', '_decode_special_text', '_decode_symbols',
    '_get_latlon', 'close_coordinates', 'flip_coordinates', '_decode_strip_null']] + [
    E + n for n in ['Line.encode', 'SpecialLine.encode', 'Front.encode', 'SpecialText.encode',
                    'SymbolBase.encode', 'Element._make_element_header']]
TRUSTED = ['struct packing and unpacking of each field (modelled field by field)', 'np.around and round(x, n) return a value within half a unit of the last digit']
ASSUMPTIONS = ['float32 storage rounds to within the format (uninterpreted rounding; the written value is the rounded one)', 'one element at an arbitrary offset, of any number of points and any attributes; a file of several elements follows from the sequencing contracts of C23 (order) and C25 (the reader moves record to record)', 'text without embedded NUL, `$$` or outer blanks']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: proved.run(n, b, dl), functions=FUNCTIONS)
            for n, b in proved.DECODE.items()]


MONITOR_SECONDS = 14
CLS = {'Line': 'LineElement', 'SpecialLine': 'SpecialLineElement', 'Front': 'FrontElement',
       'SpecialText': 'SpecialTextElement', 'SpecialSymbol': 'SymbolElement',
       'Marker': 'SymbolElement'}
SAME = {'Line': ['line_type', 'width'], 'SpecialLine': ['line_type', 'stroke', 'direction', 'width'],
        'Front': ['front_code', 'pip_size', 'pip_stroke', 'pip_direction', 'width'],
        'SpecialText': ['text_type', 'turbulence_symbol', 'font', 'text_flag', 'width',
                        'text_color', 'align', 'offset_x', 'offset_y', 'text'],
        'SpecialSymbol': ['width', 'symbol_code', 'offset_x', 'offset_y'],
        'Marker': ['width', 'symbol_code', 'offset_x', 'offset_y']}


def near(a, b, tol, what, case):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    if a.shape != b.shape:
        raise Fail(f'{what}: {a.size} values read back, {b.size} written', case)
    bad = np.flatnonzero(~(np.abs(a.astype(float) - b.astype(float)) <= tol))
    if bad.size:
        i = int(bad[0])
        raise Fail(f'{what}[{i}] read back as {a[i]!r}, written as {b[i]!r}', case)


def compare(e, m, i):
    case = dict(m.case(), position=i)
    st = m.st
    k = m.kind
    if type(e).__name__ != CLS[k]:
        raise Fail(f'element {i}: {k} read back as {type(e).__name__}', case)
    for f in ('filled', 'closed', 'smooth', 'group_type', 'group_number', 'major_color',
              'minor_color'):
        if getattr(e, f) != st[f]:
            raise Fail(f'{k}.{f} read back as {getattr(e, f)!r}, written as {st[f]!r}', case)
    for f in SAME[k]:
        if getattr(e, f) != st[f]:
            raise Fail(f'{k}.{f} read back as {getattr(e, f)!r:.150}, written as '
                       f'{st[f]!r:.150}', case)
    la, lo = st['lat'], st['lon']
    if k in G.LINEAR:
        la, lo = list(la), list(lo)
        if e.number_points != len(la):
            raise Fail(f'{k} of {len(la)} points read back with {e.number_points}', case)
        if k != 'Front' and st['closed'] and len(la) > 2:
            la, lo = la + la[:1], lo + lo[:1]
        if k == 'SpecialLine' and st['direction'] == -1:
            la, lo = la[::-1], lo[::-1]
    near(e.lat, la, .00503, f'{k}.lat', case)
    near(e.lon, lo, .00503, f'{k}.lon', case)
    for q, f in (('lat', np.min), ('lon', np.min)):
        near(getattr(e, 'min_' + q), np.min(st[q]), .00503, f'{k}.min_{q}', case)
        near(getattr(e, 'max_' + q), np.max(st[q]), .00503, f'{k}.max_{q}', case)
    if k in ('SpecialLine', 'SpecialSymbol', 'Marker'):
        near(e.size, st['size'], .0501, f'{k}.size', case)
    if k == 'SpecialText':
        near(e.size, st['size'] / 14, .000501, f'{k}.size', case)
        near(e.rotation, st['rotation'], .0501, f'{k}.rotation', case)
        for f, q in (('line_color', 'edgecolor'), ('fill_color', 'facecolor')):
            if getattr(e, f) != st[q]:
                raise Fail(f'{k}.{q} read back as {getattr(e, f)!r}, written as {st[q]!r}', case)
    if k in ('SpecialSymbol', 'Marker') and e.vg_type != (15 if k == 'SpecialSymbol' else 19):
        raise Fail(f'{k} read back with type {e.vg_type}', case)


def monitor(rng, log):
    from gempakio.decode.vgf import VectorGraphicFile
    from gempakio.encode.vgf import VGFile
    logging.disable(logging.CRITICAL)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.vgf')
        while log.more():
            ms = [build(rng, changes=rng.choice([0, 0, 3, 8]))
                  for _ in range(rng.choice([1, 1, 2, 5, 9]))]
            case = {'elements': [m.case() for m in ms[:6]]}
            with limit(20, 'writing and reading', case):
                try:
                    VGFile.from_elements(*[m.el for m in ms]).to_vgf(p)
                    v = VectorGraphicFile(p)
                except Exception as e:  # noqa: BLE001
                    raise Fail(f'writing or reading raised {type(e).__name__}: {e}',
                               case) from None
            if len(v.elements) != len(ms):
                raise Fail(f'{len(v.elements)} elements read back, {len(ms)} written', case)
            for i, (e, m) in enumerate(zip(v.elements, ms)):
                compare(e, m, i)
            log.case(tuple(tuple(m.history) for m in ms), True,
                     {'elements': [m.kind for m in ms]})


MONITORS = ['monitor']
