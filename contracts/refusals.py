"""Unknown layouts, sources and packings (C17).

_data_source: the source of a known code, unknown otherwise, for every code.
_get_surface_type: the layout of any row and column keys and number of rows; others refused.
A refusal of the file, of its layout, projection or packing is one of the reader (of the
selection), not swallowed on the way.
"""
from contracts import grid_select, read_file
from contracts.read_file import KEYS, G, Kind, Rec, interp, models, new, opened
from contracts.reading import FileWords
from pyvc.core import Ctx, SInt, sand, sor, val_eq
from pyvc.models import SSeq


class Keys:
    """Keys of which some are known to be present or not."""

    def __init__(self, c):
        self.c, self.known = c, {}

    def __contains__(self, x):
        if x not in self.known:
            self.known[x] = self.c.choose([True, False])
        return self.known[x]


def source(c):
    import gempakio.common as C
    import gempakio.decode.gempak as D
    v = SInt.var('code')
    M = models()
    which = c.choose([*C.DataSource, None])

    def enum_of(interp, cls, x):
        # the enumeration, by its definition
        if cls is not C.DataSource:
            raise AssertionError(cls)
        if isinstance(x, int):
            return cls(x)
        if which is None:
            raise ValueError('no such source')
        return which
    if which is None:
        for k in C.DataSource:
            c.assume(v != k.value)
    else:
        c.assume(v == which.value)
    M.enum_of = enum_of
    it = interp(FileWords(''), M=M)
    r = it.call(D._data_source, (v,))
    c.cover('known' if which else 'unknown')
    c.oblige('the source of a known code', which is None or r is which)
    c.oblige('any other is unknown', which is not None or r is C.DataSource.unknown or
             r.name == 'unknown')


def layout(c):
    me = new('GempakSurface')
    me.row_keys, me.column_keys = Keys(c), Keys(c)
    n = SInt.var('rows')
    c.assume(n >= 0)
    q = SSeq(n, lambda k: None)
    q.ghosts = ()
    me.row_headers = q
    it = interp(FileWords(''))
    try:
        it.call(it.getattr(me, '_get_surface_type'), ())
    except TypeError:
        got = None
    else:
        got = me.surface_type
    r, k = me.row_keys, me.column_keys
    if 'DATE' in k and 'STID' in k and bool(n == 1):
        want = 'ship'
    elif 'DATE' in r and 'STID' in k:
        want = 'standard'
    elif 'DATE' in k and 'STID' in r:
        want = 'climate'
    else:
        want = None
    c.cover(want or 'refused')
    c.oblige('the layout its keys are of, or refused', got == want)


class Refused(Exception):
    pass


def refuse(*a):
    raise Refused


def no_crs(*a):
    raise NotImplementedError


def opening(c):
    """A file or layout refused is refused by the reader."""
    cls, kind, what = c.choose([
        ('GempakGrid', 'GempakGrid', 'file'), ('GempakSounding', 'GempakSounding', 'file'),
        ('GempakSurface', 'standard', 'file'), ('GempakSurface', 'standard', 'layout')])
    me, b, it, rows, cols = opened(c, cls, KEYS[kind], 1, cls == 'GempakGrid')
    it.contracts[{'file': f'{G}GempakFile.__init__',
                  'layout': f'{G}GempakSurface._get_surface_type'}[what]] = refuse

    def reset():
        b.pos = None
    it.scratch = ([b], reset)
    try:
        it.call(it.getattr(me, '__init__'), ('file',))
    except Refused:
        c.cover(what)
        c.oblige(f'{cls}: {what} refused', True)
        return
    c.oblige(f'{cls}: {what} refused', False)


BODIES = {'data sources': source, 'surface layouts': layout, 'refused on opening': opening,
          'projection refused on opening': read_file.grid_inventory(True, no_crs)}


def run(name, body, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
