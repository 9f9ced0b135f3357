"""C27: queries over the elements of a vector graphic file, for every list of elements.

  filter   filter_elements(c, t, op) is [e for e in elements if it matches], in file order; None when
           nothing matches; any other operation is refused
  flags    has_X / get_X ask filter_elements for the documented class and type of X and return its
           answer
  group    add_element accepts an element of the group's type and number only, and appends it
  groups   get_group(t): one group per number used by an element of type t, ascending, holding
           exactly the elements of that type and number in file order
  element  an element's bounds are the extremes of its coordinates
  bounds   the file's bounds are the extremes of its element bounds, elements with a zero bound aside
"""
import numpy as np
import z3

from contracts.real_decode import zi
from pyvc.core import Ctx, PathEnd, SInt, SReal, Sym, is_sym, mkbool, mknot, sand, simplies, sor
from pyvc.filt import Part, SFilt, flat_map, ikey, parts_of, register
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models, SSeq
from pyvc.nparr import SArr
from pyvc.core import SBool

I = z3.IntSort()
R = z3.RealSort()
F = {n: z3.Function(n, I, I) for n in ('CLS', 'TYPE', 'GTYPE', 'GNUM')}
B = {n: z3.Function(n, I, R) for n in ('min_lat', 'min_lon', 'max_lat', 'max_lon')}
SEEN = z3.Function('seen', I, I, z3.BoolSort())
NUM = z3.Function('number', I, I)


class El:
    """Element i of the file."""

    def __init__(self, i):
        self.i = i
        self.vg_class = SInt.of(F['CLS'](zi(i)))
        self.vg_type = SInt.of(F['TYPE'](zi(i)))
        self.group_type = SInt.of(F['GTYPE'](zi(i)))
        self.group_number = SInt.of(F['GNUM'](zi(i)))
        for n, f in B.items():
            setattr(self, n, SReal(f(zi(i))))


def setup(c, loops=(), contracts=None):
    import gempakio.decode.vgf as V

    class H:
        pass
    h = H()
    h.c, h.V = c, V
    h.n, h.g = SInt.var('n'), SInt.var('g')
    c.assume(sand(h.n >= 0, h.g >= 0, h.g < h.n))
    cache = {}

    def item(i):
        return cache.setdefault(ikey(i), El(i))
    h.item = item
    h.els = SSeq(h.n, item)
    h.els.ghosts = [h.g]
    h.me = V.VectorGraphicFile.__new__(V.VectorGraphicFile)
    h.me._elements = h.els
    h.M = register(Models())
    h.it = Interp(h.M, loops=[('', None, lc) for lc in loops], contracts=contracts or {})
    return h


def selection(h, r, want, what):
    """r is exactly the elements with want(i), in file order (None when there are none)."""
    c = h.c
    w = want(h.item(h.g))
    if r is None:
        c.cover(f'{what} none')
        c.oblige(f'{what}: nothing matches', mknot(w))
        return
    c.cover(f'{what} some')
    ok = isinstance(r, SFilt) and r.pytype is list and len(r.parts) == 1
    c.oblige(f'{what}: a list over the elements', ok and bool(r.parts[0].n == h.n))
    if not ok:
        return
    c.oblige(f'{what}: not empty', bool(r))
    got = r.parts[0].at(h.g)
    c.oblige(f'{what}: one entry at most', len(got) <= 1)
    c.oblige(f'{what}: exactly the matching', mknot(w) if not got else sand(
        w, got[0] is h.item(h.g)))


def filter_(c):
    h = setup(c)
    vc = None if c.choose([True, False]) else SInt.var('vc')
    vt = None if c.choose([True, False]) else SInt.var('vt')
    op = c.choose(['and', 'or', 'xor', None])
    kw = {} if vc is None else {'vg_class': vc}
    if vt is not None:
        kw['vg_type'] = vt
    if op is not None:
        kw['operation'] = op
    try:
        r = h.it.call(h.it.getattr(h.me, 'filter_elements'), (), kw)
    except ValueError:
        c.cover('refused')
        c.oblige('refused operation', op == 'xor')
        return
    c.oblige('known operation', op != 'xor')

    def want(e):
        if vc is None and vt is None:
            return False
        if vt is None:
            return e.vg_class == vc
        if vc is None:
            return e.vg_type == vt
        a, b = e.vg_class == vc, e.vg_type == vt
        return sor(a, b) if op == 'or' else sand(a, b)
    selection(h, r, want, 'filter')


NAMED = {'fronts': ('fronts', None), 'text': ('text', 'text'),
         'special_text': ('text', 'special_text'), 'symbols': ('symbols', None),
         'special_symbols': ('symbols', 'special_symbol'), 'markers': ('symbols', 'marker'),
         'special_lines': ('lines', 'special_line'), 'lines': ('lines', 'line'),
         'winds': ('winds', None), 'tracks': ('tracks', None), 'watch_box': ('watches', None),
         'sigmet': ('sigmets', None), 'met': ('met', None)}


def flags(c):
    """By the contract of filter_elements."""
    kind = c.choose(['has', 'get'])
    name = c.choose(list(NAMED))
    asked = []

    def filt(interp, f, args, kw):
        pos = dict(zip(('self', 'vg_class', 'vg_type', 'operation'), args))
        pos.update(kw)
        asked.append(pos)
        a = (pos.get('vg_class'), pos.get('vg_type'), pos.get('operation', 'and'))
        if a not in h.answer:
            r = SFilt([Part(h.n, lambda k: [h.item(k)] if SBool(
                z3.Bool(f'sel {a} {ikey(k)}')) else [])])
            h.answer[a] = r if bool(r) else None
        return h.answer[a]
    h = setup(c, contracts={
        'gempakio.decode.vgf.VectorGraphicFile.filter_elements': filt})
    h.answer = {}
    if kind == 'has':
        r = h.it.getattr(h.me, 'has_' + name)
    else:
        r = h.it.call(h.it.getattr(h.me, 'get_' + name), (), {})
    c.cover(f'{kind} {name}')
    vc, vt = NAMED[name]
    want = (h.V.VGClass[vc], None if vt is None else h.V.VGType[vt])
    c.oblige('asked', sand(bool(asked), *[
        (a.get('vg_class'), a.get('vg_type')) == want and a['self'] is h.me and
        (want[1] is None or a.get('operation', 'and') == 'and') for a in asked]))
    ans = next(iter(h.answer.values()))
    c.oblige('answer', (r is (ans is not None)) if kind == 'has' else
             r is ans or isinstance(r, SFilt) and ans is not None and r.parts == ans.parts)


class Rec(Sym):
    """A list in the middle of a loop: only appending is allowed."""

    pytype = list

    def __init__(self):
        self.added = []

    def append(self, v):
        self.added.append(v)


def group(c):
    h = setup(c)
    g = h.it.instantiate(h.V.Group, (), {})
    c.oblige('new group', is_empty(g._elements) and g.group_size == 0 and g.group_type is None
             and g.group_number is None)
    if c.choose(['first', 'more']) == 'more':
        g._elements = Rec()
        g._group_type, g._group_number = SInt.var('t'), SInt.var('m')
        g._number_elements = SInt.var('size')
        c.assume(g._number_elements >= 1)
    old = (g._elements, g._group_type, g._group_number, g._number_elements)
    e = h.item(h.g)
    fits = True if old[1] is None else sand(e.group_type == old[1], e.group_number == old[2])
    try:
        h.it.call(h.it.getattr(g, 'add_element'), (e,), {})
    except ValueError:
        c.cover('refused')
        c.oblige('refused', mknot(fits))
        if old[1] is not None:
            c.oblige('refused unchanged', sand(
                g._elements is old[0], not old[0].added, g._group_type == old[1],
                g._group_number == old[2], g._number_elements == old[3]))
        return
    c.cover('added')
    c.oblige('fits', fits)
    els = g._elements.added if isinstance(g._elements, Rec) else g._elements
    c.oblige('added', sand(g._elements is old[0], len(els) == 1 and els[0] is e,
                           g._group_type == e.group_type, g._group_number == e.group_number,
                           g._number_elements == old[3] + 1))


def number_at(seq, k):
    vs = seq.parts[0].at(k)
    return vs[0].group_number if vs else None


class Uniq(Sym):
    """The distinct numbers of the first k elements."""

    pytype = list

    def __init__(self, k):
        self.k, self.added = k, []

    def has(self, x):
        return mkbool(SEEN(zi(self.k), zi(x)))

    def append(self, v):
        self.added.append(v)


def is_empty(x):
    return isinstance(x, list) and not x


class Distinct(LoopContract):
    """for element in ...: if its number is not in numbers, append it."""

    names = ('numbers',)

    def applies(self, f, interp):
        return 'numbers' in f.locals and is_empty(f.locals['numbers']) and any(
            isinstance(v, SFilt) for v in f.locals.values())

    def inv(self, f, interp, seq, k):
        L = f.locals['numbers']
        if not is_sym(k):
            return [('none yet', is_empty(L))]
        if not isinstance(L, Uniq):
            return [('numbers', False)]
        if L.k is k:
            return []
        v = number_at(seq, L.k)
        seen = False if v is None else mkbool(SEEN(zi(L.k), zi(v)))
        if not L.added:
            return [('seen before', True if v is None else seen)]
        return [('new number', sand(v is not None, len(L.added) == 1 and L.added[0] == v,
                                    mknot(seen)))]

    def havoc(self, f, interp, seq, k):
        f.locals['numbers'] = Uniq(k)

    def after(self, f, interp, seq):
        f.locals['numbers'] = flat_map(seq, lambda e: [e.group_number], set)


class Members(LoopContract):
    """for element in ...: if its number is gn, g.add_element(element)."""

    names = ('g', 'gn')

    def __init__(self, h):
        self.h = h

    def applies(self, f, interp):
        return type(f.locals.get('g')).__name__ == 'Group' and 'gn' in f.locals

    def inv(self, f, interp, seq, k):
        g, gn = f.locals['g'], f.locals['gn']
        if not is_sym(k):
            return [('empty', is_empty(g._elements) and g._group_type is None and
                     g._group_number is None and g._number_elements == 0)]
        if not isinstance(g._elements, Rec):
            return [('appended to', False)]
        if not hasattr(g, 'was'):
            return []
        kk, count = g.was
        if kk is k:
            return []
        vs = seq.parts[0].at(kk)
        hit = False if not vs else vs[0].group_number == gn
        add = g._elements.added
        n = len(add)
        some = sor(hit, mknot(mkbool(z3.BoolVal(True)) if False else count == 0))
        out = [('kept', mknot(hit) if n == 0 else sand(hit, n == 1 and add[0] is vs[0])),
               ('size', g._number_elements == count + n)]
        out.append(('identity', simplies(some, sand(
            g._group_type == self.h.t if g._group_type is not None else False,
            g._group_number == gn if g._group_number is not None else False))))
        out.append(('no identity', simplies(mknot(some), sand(
            g._group_type is None, g._group_number is None))))
        return out

    def state(self, f, some):
        g, gn = f.locals['g'], f.locals['gn']
        if some:
            g._group_type, g._group_number = self.h.t, gn
            g._number_elements = SInt.var(self.h.c.fresh_name('size'))
            self.h.c.assume(g._number_elements >= 1)
        else:
            g._group_type = g._group_number = None
            g._number_elements = 0

    def havoc(self, f, interp, seq, k):
        g = f.locals['g']
        g._elements = Rec()
        self.state(f, self.h.c.choose([True, False]))
        g.was = (k, g._number_elements)

    def after(self, f, interp, seq):
        g, gn = f.locals['g'], f.locals['gn']
        del g.was
        g._elements = flat_map(seq, lambda e: [e] if bool(e.group_number == gn) else [])
        self.state(f, bool(g._elements))


def groups(c):
    lcs = [Distinct(), None]
    h = setup(c)
    h.t = SInt.var('group_type')
    lcs[1] = Members(h)
    h.it.loops = [('', None, lc) for lc in lcs]
    old = h.M.contains
    h.M.contains = lambda it, cont, x: cont.has(x) if isinstance(cont, Uniq) else old(
        it, cont, x)
    m, i = SInt.var('m'), SInt.var('gi')
    given = []

    def ordered(interp, args, kw):
        """Ascending order of distinct numbers."""
        x = args[0]
        if not isinstance(x, SFilt):
            return NotImplemented
        if x.pytype is not set or kw:
            from pyvc.core import Unsupported
            raise Unsupported('sorted of possibly repeated numbers')
        given.append(x)
        c.assume(m >= 0)

        def number(k):
            # every number is the number of some element
            if ikey(k) not in seen:
                seen[ikey(k)] = v = SInt.of(NUM(zi(k)))
                x.pick(lambda w: w == v)
            return seen[ikey(k)]
        seen = {}
        r = SSeq(m, number)
        r.ghosts = [i] if h.has_group else []
        return r
    h.M.reg(sorted, ordered)
    h.has_group = c.choose([True, False])
    if h.has_group:
        c.assume(sand(i >= 0, i < m))
    else:
        # no number at all: no element of that type
        c.assume(m == 0)
    try:
        r = h.it.call(h.it.getattr(h.me, 'get_group'), (h.t,), {})
    except ValueError:
        c.oblige('never refused', False)
        return
    e = h.item(h.g)
    if not h.has_group:
        c.cover('no group')
        c.oblige('none', r is None)
        for x in given:
            c.oblige('numbers complete', sand(*[
                simplies(e.group_type == h.t, len(x.parts) == 1 and len(x.parts[0].at(h.g)) == 1)]))
        return
    c.cover('groups')
    ok = isinstance(r, SFilt) and r.pytype is list and len(r.parts) == 1
    c.oblige('one list', ok)
    if not ok:
        return
    c.oblige('one group per number', bool(r.parts[0].n == m) and len(r.parts[0].at(i)) == 1)
    gr = r.parts[0].at(i)[0]
    gn = SInt.of(NUM(zi(i)))
    c.oblige('identity', sand(gr._group_type == h.t, gr._group_number == gn,
                              gr._number_elements >= 1))
    els = gr._elements
    ok = isinstance(els, SFilt) and len(els.parts) == 1
    c.oblige('elements in file order', ok and bool(els.parts[0].n == h.n))
    got = els.parts[0].at(h.g)
    want = sand(e.group_type == h.t, e.group_number == gn)
    c.oblige('exactly the members', mknot(want) if not got else sand(
        want, len(got) == 1 and got[0] is e))
    # the sorted numbers are those of the elements of that type
    x = given[0]
    vs = x.parts[0].at(h.g)
    c.oblige('numbers complete', sand(len(x.parts) == 1, e.group_type == h.t if vs else
                                      e.group_type != h.t,
                                      len(vs) <= 1 and (not vs or vs[0] == e.group_number)))


def element(c):
    import gempakio.decode.vgf as V
    n = SInt.var('n')
    g = SInt.var('g')
    c.assume(sand(n >= 0, g >= 0, g < n))
    la, lo = z3.Function('lat', I, R), z3.Function('lon', I, R)
    it = Interp(register(Models()))
    e = V.VectorGraphicElement.__new__(V.VectorGraphicElement)
    e.lat = SArr((n,), np.float64, lambda i: SReal(la(zi(i))))
    e.lon = SArr((n,), np.float64, lambda i: SReal(lo(zi(i))))
    c.state['ghosts'] = [(1, (g,))]
    try:
        r = it.getattr(e, 'bounds')
    except NotImplementedError:
        c.cover('one point')
        c.oblige('single points have no bounds', n <= 1)
        return
    c.cover('bounds')
    ymin, xmin, ymax, xmax = r
    y, x = e.lat.at(g), e.lon.at(g)
    c.oblige('enclose', sand(ymin <= y, y <= ymax, xmin <= x, x <= xmax))
    for nm, v, f in (('ymin', ymin, la), ('ymax', ymax, la), ('xmin', xmin, lo),
                     ('xmax', xmax, lo)):
        # attained: the value is a coordinate of the element
        c.oblige(f'{nm} attained', z3.is_app(v.t) and v.t.decl().name() == f.name())


class Extent(LoopContract):
    """Running extremes over the elements with an extent."""

    names = ('xmin', 'xmax', 'ymin', 'ymax')
    KEY = {'xmin': ('min_lon', 1), 'xmax': ('max_lon', -1), 'ymin': ('min_lat', 1),
           'ymax': ('max_lat', -1)}

    def __init__(self, h):
        self.h = h

    def applies(self, f, interp):
        return all(n in f.locals for n in self.names)

    def counted(self, j):
        return sand(*[SReal(b(zi(j))) != 0 for b in B.values()])

    def inv(self, f, interp, seq, k):
        h, L = self.h, f.locals
        out = []
        for n in self.names:
            key, s = self.KEY[n]
            v = L[n]
            at = SReal(B[key](zi(h.g)))
            out.append((f'{n} covers', simplies(sand(h.g < k, self.counted(h.g)),
                                                v <= at if s > 0 else v >= at)))
            start = 9999 * s
            if not is_sym(k):
                out.append((f'{n} starts', v == start))
                continue
            w = h.wit.get(n)
            opts = [v == start]
            if w is not None:
                opts.append(sand(w >= 0, w < k, self.counted(w), v == SReal(B[key](zi(w)))))
            if h.last is not None and h.last is not k:
                j = h.last
                opts.append(sand(self.counted(j), v == SReal(B[key](zi(j)))))
            out.append((f'{n} attained', sor(*opts)))
        h.last = k
        return out

    def havoc(self, f, interp, seq, k):
        h = self.h
        h.last = k
        h.wit = {}
        for n in self.names:
            f.locals[n] = SReal.var(h.c.fresh_name(n))
            h.wit[n] = SInt.var(h.c.fresh_name('w' + n))


def bounds(c):
    h = setup(c)
    h.wit, h.last = {}, None
    lc = Extent(h)
    h.it.loops = [('', None, lc)]
    g = h.g
    for key, b in B.items():
        v = SReal(b(zi(g)))
        c.assume(sand(v <= 9999, v >= -9999))
    r = h.it.getattr(h.me, 'bounds')
    c.cover('bounds')
    ymin, xmin, ymax, xmax = r
    for n, v in (('ymin', ymin), ('xmin', xmin), ('ymax', ymax), ('xmax', xmax)):
        key, s = lc.KEY[n]
        at = SReal(B[key](zi(g)))
        c.oblige(f'{n} covers', simplies(lc.counted(g), v <= at if s > 0 else v >= at))
        w = h.wit[n]
        c.oblige(f'{n} attained', sor(v == 9999 * s, sand(
            w >= 0, w < h.n, lc.counted(w), v == SReal(B[key](zi(w))))))


PARTS = {'filter_elements': filter_, 'flags and getters': flags, 'add_element': group,
         'get_group': groups, 'element bounds': element, 'file bounds': bounds}


def run(name, deadline=None):
    c = Ctx(name, timeout_ms=20000, deadline=deadline, max_paths=20000)
    c.state_global = {}
    c.explore(PARTS[name])
    return c


if __name__ == '__main__':
    import sys
    import time
    for pt in PARTS:
        if len(sys.argv) > 1 and pt not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(pt)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(pt, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.values()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
