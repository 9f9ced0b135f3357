"""C27: vector graphic queries return exactly the matching elements."""
import numpy as np

from contracts import vgf_queries
from vp.api import Fail, Task, limit

_V = 'gempakio.decode.vgf.VectorGraphicFile.'
FUNCTIONS = [_V + n for n in ('filter_elements', 'get_group', 'bounds')] + [
    'gempakio.decode.vgf.Group.add_element', 'gempakio.decode.vgf.VectorGraphicElement.bounds'] + [
    _V + k + n for n in vgf_queries.NAMED for k in ('has_', 'get_')]
TRUSTED = ['sorted() of a set of distinct numbers is those numbers in ascending order', 'min() and max() of a sequence return an extreme element']
ASSUMPTIONS = ['coordinates lie within +-9999 (the start values of the file bounds)']


def proofs(tier):
    return [Task(n, lambda dl, n=n: vgf_queries.run(n, dl), functions=FUNCTIONS, timeout=600)
            for n in vgf_queries.PARTS]



MONITOR_SECONDS = 10
MONITORS = ['queries', 'groups', 'bounds', 'decoded']

# presence flag/getter name: (class, type or None)
NAMED = {'fronts': (1, None), 'text': (5, 17), 'special_text': (5, 21), 'symbols': (4, None),
         'special_symbols': (4, 15), 'markers': (4, 19), 'special_lines': (3, 20),
         'lines': (3, 1), 'winds': (6, None), 'tracks': (10, None), 'watch_box': (2, None),
         'sigmet': (11, None), 'met': (15, None)}


class H:
    pass


def header(rng, **kw):
    h = H()
    for k in ('delete', 'filled', 'closed', 'smooth', 'version', 'major_color', 'minor_color',
              'record_size'):
        setattr(h, k, 0)
    h.vg_type = rng.choice([1, 2, 5, 6, 8, 15, 17, 17, 18, 19, 20, 21, 26, 27, 30, 37, 40])
    h.vg_class = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 10, 11, 12, 14, 15])
    h.group_type = rng.choice([0, 1, 2, 3, 8, 255])
    h.group_number = rng.choice([0, 1, 2, 3, 5, 11, 100])
    z = rng.random()
    if z < .2:
        b = [0.0] * 4
    elif z < .3:
        b = [rng.randint(-900, 900) / 10 for _ in range(4)]
        b[rng.randrange(4)] = 0.0
    else:
        la = sorted(rng.randint(-9000, 9000) / 100 for _ in range(2))
        lo = sorted(rng.randint(-18000, 18000) / 100 for _ in range(2))
        b = [la[0], lo[0], la[1], lo[1]]
    h.min_lat, h.min_lon, h.max_lat, h.max_lon = b
    for k, v in kw.items():
        setattr(h, k, v)
    return h


def element(rng, **kw):
    from gempakio.decode import vgf as V
    return V.VectorGraphicElement(header(rng, **kw))


def file_of(els):
    from gempakio.decode.vgf import VectorGraphicFile
    v = VectorGraphicFile.__new__(VectorGraphicFile)
    v._elements, v._groups = els, []
    return v


def describe(els):
    return [(e.vg_class, e.vg_type, e.group_type, e.group_number) for e in els]


def ident(got, want, what, case):
    if not want:
        if got is not None:
            raise Fail(f'{what}: nothing matches but {got!r:.100} was returned', case)
        return
    if got is None or not isinstance(got, (list, tuple)) or [id(e) for e in got] != \
            [id(e) for e in want]:
        raise Fail(f'{what}: {describe(got or [])} returned, matching elements in file order '
                   f'are {describe(want)}', case)


def check_queries(rng, v, els, case):
    for name, (c, t) in NAMED.items():
        want = [e for e in els if e.vg_class == c and (t is None or e.vg_type == t)]
        ident(getattr(v, 'get_' + name)(), want, f'get_{name}()', case)
        if bool(getattr(v, 'has_' + name)) != bool(want):
            raise Fail(f'has_{name} is {getattr(v, "has_" + name)} with {len(want)} such '
                       'elements', case)
    cs = [None, 0, 17] + [e.vg_class for e in els[:5]]
    ts = [None, 0, 44] + [e.vg_type for e in els[:5]]
    for _ in range(8):
        c, t, op = rng.choice(cs), rng.choice(ts), rng.choice(['and', 'or'])
        if c is None and t is None:
            want = []
        elif t is None:
            want = [e for e in els if e.vg_class == c]
        elif c is None:
            want = [e for e in els if e.vg_type == t]
        elif op == 'and':
            want = [e for e in els if e.vg_class == c and e.vg_type == t]
        else:
            want = [e for e in els if e.vg_class == c or e.vg_type == t]
        got = v.filter_elements(vg_class=c, vg_type=t, operation=op)
        ident(got, want, f'filter_elements({c}, {t}, {op})', case)
        if c is not None and t is not None and op == 'and':
            ident(v.filter_elements(c, t), want, f'filter_elements({c}, {t})', case)
    for op in ('xor', '', None, 'AND'):
        try:
            v.filter_elements(vg_class=1, vg_type=1, operation=op)
        except ValueError:
            continue
        raise Fail(f'operation {op!r} was accepted', case)


def queries(rng, log):
    while log.more():
        els = [element(rng) for _ in range(rng.choice([0, 1, 3, 8, 20]))]
        case = {'elements': describe(els)}
        with limit(10, 'query', case):
            check_queries(rng, file_of(els), els, case)
        log.case(tuple(describe(els)), bool(els), case)


def check_groups(v, els, case):
    for gt in sorted({e.group_type for e in els} | {0, 4}):
        mine = [e for e in els if e.group_type == gt]
        got = v.get_group(gt)
        if not mine:
            if got is not None:
                raise Fail(f'get_group({gt}) is {got!r:.100} with no such element', case)
            continue
        nums = sorted({e.group_number for e in mine})
        if got is None or [g.group_number for g in got] != nums:
            raise Fail(f'get_group({gt}) has numbers {[g.group_number for g in got or []]}, '
                       f'elements have {nums}', case)
        for g in got:
            want = [e for e in mine if e.group_number == g.group_number]
            ident(list(g), want, f'group {gt}/{g.group_number}', case)
            ident(list(g.elements), want, f'group {gt}/{g.group_number}', case)
            if g.group_size != len(want) or g.group_type != gt:
                raise Fail(f'group {gt}/{g.group_number} has size {g.group_size} type '
                           f'{g.group_type} for {len(want)} elements', case)


def groups(rng, log):
    from gempakio.decode.vgf import Group
    while log.more():
        els = [element(rng) for _ in range(rng.choice([0, 1, 3, 8, 20]))]
        case = {'elements': describe(els)}
        with limit(10, 'get_group', case):
            check_groups(file_of(els), els, case)
            g = Group()
            held = []
            for e in els:
                ok = not held or (held[0].group_type, held[0].group_number) == \
                    (e.group_type, e.group_number)
                try:
                    g.add_element(e)
                except ValueError:
                    if ok:
                        raise Fail('an element of the group was refused', case) from None
                else:
                    if not ok:
                        raise Fail('an element of another group was accepted', case)
                    held.append(e)
                ident(list(g), held, 'group after additions', case) if held else None
        log.case(tuple(describe(els)), bool(els), case)


def check_bounds(v, els, case):
    good = [e for e in els if 0 not in (e.min_lat, e.min_lon, e.max_lat, e.max_lon)]
    want = (min([e.min_lat for e in good] + [9999]), min([e.min_lon for e in good] + [9999]),
            max([e.max_lat for e in good] + [-9999]), max([e.max_lon for e in good] + [-9999]))
    if tuple(v.bounds) != want:
        raise Fail(f'file bounds {v.bounds}, extremes of the elements are {want}', case)


def bounds(rng, log):
    from gempakio.decode import vgf as V
    while log.more():
        els = [element(rng) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
        case = {'bounds': [(e.min_lat, e.min_lon, e.max_lat, e.max_lon) for e in els]}
        check_bounds(file_of(els), els, case)
        n = rng.choice([2, 2, 3, 10, 200])
        la = np.around(np.array([rng.uniform(-90, 90) for _ in range(n)], 'float32'), 2)
        lo = np.around(np.array([rng.uniform(-180, 180) for _ in range(n)], 'float32'), 2)
        kind = rng.choice(['Line', 'SpecialLine', 'Front', 'Circle', 'plain'])
        if kind == 'plain':
            e = V.VectorGraphicElement(header(rng))
            e.lat, e.lon = la, lo
        elif kind == 'SpecialLine':
            e = V.SpecialLineElement(header(rng), n, 1, 1, 1, 1.0, 1, la, lo)
        elif kind == 'Front':
            e = V.FrontElement(header(rng), n, 420, 100, 1, 1, 2, 'SPC', la, lo)
        elif kind == 'Circle':
            e = V.CircleElement(header(rng), n, 1, 1, 1, 1, la, lo)
        else:
            e = V.LineElement(header(rng), n, 1, 0, 1, 0, la, lo)
        want = (la.min(), lo.min(), la.max(), lo.max())
        case = {'kind': kind, 'lat': la.tolist()[:20], 'lon': lo.tolist()[:20], 'points': n}
        if tuple(e.bounds) != want:
            raise Fail(f'{kind} bounds {e.bounds}, extremes of its coordinates are {want}', case)
        log.case((kind, n, la.tobytes()), True)


def decoded(rng, log):
    import logging
    from checks.c25 import decode
    from vp import vgfref as R
    logging.disable(logging.CRITICAL)
    while log.more():
        items = [R.element(rng, rng.choice(['line', 'special_line', 'front', 'symbol', 'text',
                                            'special_text', 'wind', 'gfa', 'circle', 'sigmet',
                                            'track', 'volcano', 'tc_error', 'watch', 'list']))
                 for _ in range(rng.choice([1, 4, 10]))]
        case = {'kinds': [i[3] for i in items]}
        v = decode(R.file_header(rng) + b''.join(i[0] for i in items), case)
        els = list(v.elements)
        if len(els) != len(items):
            raise Fail(f'{len(els)} elements decoded of {len(items)}', case)
        for e, (_, h, _, _) in zip(els, items):
            if (e.vg_class, e.vg_type, e.group_type, e.group_number) != \
                    (h['vg_class'], h['vg_type'], h['group_type'], h['group_number']):
                raise Fail('decoded elements are not in file order', case)
        check_queries(rng, v, els, case)
        check_groups(v, els, case)
        check_bounds(v, els, case)
        for e in els:
            if hasattr(e, 'lat') and np.size(e.lat) > 1:
                want = (min(e.lat), min(e.lon), max(e.lat), max(e.lon))
                if tuple(e.bounds) != want:
                    raise Fail(f'{type(e).__name__} bounds {e.bounds}, extremes {want}', case)
        log.case((tuple(case['kinds']), rng.random()), True)
