"""C05: written files have disjoint, in-order sections where the label says."""
import datetime

import numpy as np

from contracts import file_layout
from vp import gemref as R, gen, writers as W
from vp.api import Fail, Task, limit

E = 'gempakio.encode.gempak.'
FUNCTIONS = ['gempakio.common._word_to_position', 'gempakio.common._position_to_word'] + [
    f'{E}GempakStream.{n}' for n in ('jump_to', 'word', 'write_string', 'write_int',
                                     'write_float', 'write_struct')] + [
    f'{E}DataManagementFile.{n}' for n in (
        '_dmword', '_set_pointers', '_write_label', '_write_data_management',
        '_write_file_keys', '_write_row_keys', '_write_column_keys', '_write_parts',
        'to_gempak')] + [
    f'{E}{k}.{n}' for k in ('GridFile', 'SoundingFile', 'SurfaceFile') for n in (
        '_write_row_headers', '_write_column_headers', '_write_data')] + [
    f'{E}GridFile._write_file_headers']
TRUSTED = ['BytesIO seek, tell and write, struct.pack of one word or of a structure, open and write of the file', 'GridFile._pack_grib gives integers (C01)', 'strftime of dates and times in full-width digits (C10)']
ASSUMPTIONS = ['one row and two file headers in grid files, one part (as the constructors make them); any number of rows, columns, parameters, levels and packed words otherwise', 'every header field is of its kind (text, whole number, coordinate) and fits its word', 'the levels of every parameter of a sounding are equally many (add_sounding, C11)']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: file_layout.run(n, b, dl), functions=FUNCTIONS)
            for n, b in file_layout.BODIES.items()]



MONITOR_SECONDS = 14


def check_layout(b, case, written=None):
    raw = R.Raw(b)
    if len(b) % 4:
        raise Fail('file is not a whole number of words', case)
    prev, at = 'start', 1
    for name, start, size in R.sections(raw):
        if start < at:
            raise Fail(f'{name} starts at word {start}, inside {prev} (ends before {at})', case)
        if start + size - 1 > raw.words and size:
            raise Fail(f'{name} ends beyond the file', case)
        prev, at = name, start + size
    blocks = []
    for r in range(raw.rows):
        for c in range(raw.columns):
            for p in range(raw.parts):
                q = raw.pointer(r, c, p)
                if q:
                    if not at <= q <= raw.words:
                        raise Fail(f'data pointer {q} of entry {(r, c, p)}: data area is '
                                   f'{at}..{raw.words}', case)
                    blocks.append((q, q + raw.i(q), (r, c, p)))
    blocks.sort()
    for (s, e, k), nxt in zip(blocks, [*blocks[1:], None], strict=True):
        if e > raw.words or e < s:
            raise Fail(f'block of entry {k} is words {s}..{e} of {raw.words}', case)
        if nxt and nxt[0] <= e:
            raise Fail(f'blocks of {k} and {nxt[2]} overlap', case)
    nfw = raw.i(raw.data_mgmt_ptr)
    end = blocks[-1][1] if blocks else at - 1
    if not end < nfw <= raw.words + 1:
        raise Fail(f'next free word {nfw}: blocks end at {end}, file has {raw.words} words', case)
    if written is not None and len(blocks) != written:
        raise Fail(f'{len(blocks)} data pointers for {written} entries', case)
    for r in range(raw.rows):
        if raw.i(raw.rowhead(r)) != 9999:
            raise Fail(f'row header {r} is not marked used', case)
    for c in range(raw.columns):
        if raw.i(raw.colhead(c)) != 9999:
            raise Fail(f'column header {c} is not marked used', case)
    return raw


def one(rng, log, tmp, big=False):
    from gempakio import GridFile, SoundingFile, SurfaceFile
    kind = rng.choice(['grid', 'snd', 'sfc', 'sfc', 'snd'])
    case = {'kind': kind}
    if kind == 'grid':
        shape = (rng.randint(1, 6), rng.randint(1, 9))
        s = W.grid_setup(rng, shape)
        f = GridFile(s['lon'], s['lat'], s['proj'])
        # 11 words per column header: 128 is reached at 11 and 12, 256 at 23 and 24
        n = rng.choice([1, 2, 11, 12, 23, 24, 35, 127, 128, 129, rng.randint(1, 60)])
        f.precision = rng.randint(1, 31)
        case.update(shape=shape, n=n, precision=f.precision)
        for k in range(n):
            f.add_grid(np.array(gen.values(rng, shape[0] * shape[1], np.nan)).reshape(shape),
                       'TMPK', 'PRES', k, datetime.datetime(2024, 1, 2))
        want = n
    else:
        npar = rng.choice([1, 2, 6, 30, 31, 32, 43, 44, rng.randint(1, 44)])
        pars = [f'P{k:03d}' for k in range(npar)]
        nst = rng.choice([1, 2, 12, 13, 14, 25, rng.randint(1, 60)])
        nt = rng.choice([1, 1, 2, 3, 10, 42, 43])
        if nst * nt > 200:
            nt = 1
        cls = SoundingFile if kind == 'snd' else SurfaceFile
        f = cls(pars)
        want = 0
        dens = rng.choice([1, 1, .5, .1])
        last = None
        for a in range(nst):
            for b in range(nt):
                if rng.random() > dens and not (a == b == 0):
                    continue
                dt = datetime.datetime(2024, 1, 2) + datetime.timedelta(hours=b)
                inf = {'station_id': f'K{a:03d}', 'station_number': a}
                if kind == 'snd':
                    nl = rng.choice([1, 3, rng.randint(1, 20)])
                    f.add_sounding({p: np.arange(nl) * 1.0 for p in pars}, 1.0, 2.0, dt, inf)
                else:
                    f.add_station({p: 1.0 for p in pars}, 1.0, 2.0, dt, inf)
                want += 1
                last = (a, b)
        case.update(params=npar, stations=nst, times=nt, entries=want, last=last)
    with limit(60, 'to_gempak', case):
        _p, b = tmp.save(f)
    check_layout(b, case, want)
    if rng.random() < .3:    # writing again is as sound
        check_layout(tmp.save(f)[1], {**case, 'second write': True}, want)
    log.case(str(case))


def monitor(rng, log):
    from gempakio.common import _position_to_word, _word_to_position
    for w in [*range(1, 400), *(rng.randint(1, 2**31) for _ in range(200))]:
        if _position_to_word(_word_to_position(w)) != w:
            raise Fail(f'word {w} -> position {_word_to_position(w)} -> word '
                       f'{_position_to_word(_word_to_position(w))}', {'word': w})
        if _word_to_position(w) != 4 * (w - 1):
            raise Fail(f'word {w} is at byte {_word_to_position(w)}', {'word': w})
        for r in range(4):
            if _position_to_word(4 * (w - 1) + r) != w:
                raise Fail(f'byte {4 * (w - 1) + r} is in word {w}', {'word': w})
    with R.Scratch() as tmp:
        while log.more():
            one(rng, log, tmp)
