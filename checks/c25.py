"""C25: vector graphic decoding stays aligned from element to element."""
import datetime
import glob
import logging
import os
import random
import struct
import tempfile

import numpy as np

from contracts import vgf_decode as proved
from vp import vgfref as G
from vp.api import Fail, Task, limit

V = 'gempakio.decode.vgf.VectorGraphicFile.'
FUNCTIONS = [V + n for n in ['__init__', '_decode_elements', '_read_header', '_validate_header',
                             '_decode_file_header', '_get_latlon', 'close_coordinates',
                             'flip_coordinates', '_decode_strip_null', '_swap32',
                             *sorted({k[3] for k in proved.KINDS.values()})]]
TRUSTED = ['struct unpacking of each field (modelled field by field)', 're.search, str.split and strptime on the texts of tropical cyclone records (a match is assumed where the record is well formed)', 'np.around and round(x, n) return a value within half a unit of the last digit']
ASSUMPTIONS = ['records are well formed: counts within the documented limits, enumerated codes among the documented ones, texts valid UTF-8', 'a tropical cyclone advisory has no watch or warning segments in the proof (the monitor covers them)', 'logging is not observed']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: proved.run(n, b, dl), functions=FUNCTIONS)
            for n, b in proved.BODIES.items()]


MONITOR_SECONDS = 14
MONITORS = ['kinds', 'files', 'archived']
FLD = G.HEAD.split()


def same(got, want, tol=.006):
    if isinstance(want, list):
        got = list(np.atleast_1d(got)) if not isinstance(got, (list, tuple)) else list(got)
        if want == [] and (got == [] or got == [-9999]):
            return True
        return len(got) == len(want) and all(same(a, b, tol) for a, b in zip(got, want))
    if isinstance(want, float):
        try:
            return abs(float(got) - want) <= tol
        except (TypeError, ValueError):
            return False
    if isinstance(want, datetime.datetime):
        return got == want
    return got == want


def compare(el, h, exp, kind, case):
    for f in FLD:
        f = f.split(':')[0]
        if not same(getattr(el, f), h[f], .011):
            raise Fail(f'{kind}: header field {f} decoded as {getattr(el, f)!r}, bytes say '
                       f'{h[f]!r}', case)
    for k, v in exp.items():
        if k == '_sub':
            for name, items in v.items():
                cmp_items(getattr(el, name), items, f'{kind}.{name}', case)
            continue
        if k == '_jet':
            cmp_items([el.line_attribute], [v['line']], 'jet line', case)
            cmp_items(el.barb_attributes, v['barbs'], 'jet barb', case)
            cmp_items(el.hash_attributes, v['hashes'], 'jet hash', case)
            continue
        if not hasattr(el, k):
            raise Fail(f'{kind}: attribute {k} missing', case)
        if not same(getattr(el, k), v):
            raise Fail(f'{kind}: {k} decoded as {getattr(el, k)!r:.200}, bytes say {v!r:.200}',
                       case)


def cmp_items(got, want, what, case):
    if len(got) != len(want):
        raise Fail(f'{what}: {len(got)} items decoded, bytes hold {len(want)}', case)
    for i, (a, b) in enumerate(zip(got, want)):
        for k, v in b.items():
            if not hasattr(a, k):
                raise Fail(f'{what} {i}: attribute {k} missing', case)
            if not same(getattr(a, k), v):
                raise Fail(f'{what} {i}: {k} decoded as {getattr(a, k)!r:.200}, bytes say '
                           f'{v!r:.200}', case)


def decode(data, case):
    from gempakio.decode.vgf import VectorGraphicFile
    logging.disable(logging.CRITICAL)
    with tempfile.NamedTemporaryFile(suffix='.vgf') as f:
        f.write(data)
        f.flush()
        with limit(20, 'decoding', case):
            try:
                return VectorGraphicFile(f.name)
            except Exception as e:  # noqa: BLE001
                raise Fail(f'decoding a well-formed file raised {type(e).__name__}: {e}',
                           case) from None


def run(rng, log, items, tail=b'', why='file', head=True):
    case = {'kinds': [k for _, _, _, k in items],
            'headers': [{k: h[k] for k in ('vg_type', 'vg_class', 'version', 'record_size')}
                        for _, h, _, _ in items], 'tail': tail[:80].hex(), 'why': why}
    data = (G.file_header(rng) if head else b'') + b''.join(b for b, *_ in items)
    if len(data) + len(tail) < 200000:
        case['bytes'] = (data + tail).hex()
    v = decode(data + tail, case)
    want = [(h, e, k) for _, h, e, k in items if e is not None]
    if len(v.elements) != len(want):
        raise Fail(f'{len(v.elements)} elements decoded, file holds {len(want)} decodable ones',
                   case)
    for el, (h, e, k) in zip(v.elements, want):
        compare(el, h, e, k, case)
    if not tail and v._buffer._offset != len(data):
        raise Fail(f'decoding ended at byte {v._buffer._offset} of {len(data)}', case)
    groups = []
    for _, h, _, _ in items:
        if h['group_type'] and h['vg_class'] and h['group_type'] not in groups:
            groups.append(h['group_type'])
    if list(v.groups) != groups:
        raise Fail(f'groups {v.groups} listed, file has {groups}', case)
    return v


def kinds(rng, log):
    """Each kind in front of every other."""
    ks = list(G.KINDS)
    while log.more():
        rng.shuffle(ks)
        for k in ks:
            if not log.more():
                return
            cls, types, vers, _ = G.KINDS[k]
            it = [G.element(rng, k, vg_type=t, version=v) for t in types for v in vers]
            it.append(G.element(rng, 'line'))
            run(rng, log, it, why=k)
            log.case((k, rng.random()), True, {'kind': k, 'elements': len(it)})


BAD = [('delete', 2), ('delete', 255), ('vg_type', 0), ('vg_type', 44), ('vg_type', 255),
       ('vg_class', 17), ('vg_class', 255), ('major_color', -1), ('major_color', 33),
       ('minor_color', -1), ('minor_color', 33), ('record_size', 39), ('record_size', 0),
       ('record_size', -5), ('record_size', 2**30)]


def files(rng, log):
    while log.more():
        n = rng.choice([0, 1, 2, 3, 5, 9])
        items = [G.element(rng) for _ in range(n)]
        tail = b''
        k = rng.random()
        if k < .5:
            b, h, e, kind = G.element(rng, rng.choice(['line', 'front', 'text', 'bad_line']))
            if rng.random() < .4:
                tail = b[:rng.randint(1, 39)]
            else:
                f, val = rng.choice(BAD)
                if f == 'vg_type' and val == 0:
                    val = 44
                h = dict(h, **{f: val})
                tail = G.pack(G.Given(rng, **h), G.HEAD) + b[40:]
                for _ in range(rng.randint(0, 2)):
                    tail += G.element(rng)[0]
        run(rng, log, items, tail, 'sequence', head=rng.random() < .9)
        log.case((n, rng.random()), n > 0, {'elements': [i[3] for i in items],
                                            'invalid tail': bool(tail)})


def archived(rng, log):
    """Files of the test data: concatenating their elements in any order decodes the same."""
    from gempakio.decode.vgf import VectorGraphicFile
    parts = []
    for p in sorted(glob.glob('/repo/tests/data/*.vgf')):
        data = open(p, 'rb').read()
        pos = 0
        while pos + 40 <= len(data):
            h = struct.unpack('>8B4i4f', data[pos:pos + 40])
            if h[11] < 40 or h[0] > 1 or pos + h[11] > len(data):
                break
            parts.append((os.path.basename(p), data[pos:pos + h[11]]))
            pos += h[11]
    if not parts:
        return
    heads = [b for _, b in parts if b[2] == 0]
    parts = [(n, b) for n, b in parts if b[2] != 0]
    alone = {}
    while log.more():
        pick = [rng.choice(parts) for _ in range(rng.randint(1, 12))]
        case = {'from': [n for n, _ in pick], 'sizes': [len(b) for _, b in pick]}
        v = decode((heads[0] if heads else G.file_header(rng)) + b''.join(b for _, b in pick),
                   case)
        want = []
        for n, b in pick:
            if b not in alone:
                a = decode(heads[0] + b, case)
                if a._buffer._offset != len(heads[0]) + len(b):
                    raise Fail(f'decoding an archived element of {n} ended at byte '
                               f'{a._buffer._offset - len(heads[0])} of {len(b)}', case)
                alone[b] = a.elements
            want += alone[b]
        if len(want) != len(v.elements):
            raise Fail(f'{len(v.elements)} elements decoded, {len(want)} expected', case)
        for a, b in zip(v.elements, want):
            if type(a) is not type(b) or repr(sorted(vars(a).items(), key=str)) != \
                    repr(sorted(vars(b).items(), key=str)):
                if 'Attribute' in repr(vars(a)):
                    continue
                raise Fail('an element decodes differently after other elements', case)
        log.case((tuple(case['from']), tuple(case['sizes'])), True)


_ = random
