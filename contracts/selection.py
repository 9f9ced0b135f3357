"""Vocabulary shared by the selection contracts (C13-C16): times, requests, results."""
import datetime
import operator

import z3

from contracts.real_decode import zi
from pyvc.core import SInt, SReal, Sym, Unsupported, ctx, mknot, sand, sor, val_eq
from pyvc.filt import ikey, member
from pyvc.models import SOpt, SSeq, SStr

I, RR, SS = z3.IntSort(), z3.RealSort(), SStr.S


class Opt(SOpt):
    """val, or None when has_val is false."""

    pytype = None

    def __init__(self, has_val, val):
        self.has_val, self.val = has_val, val

    def is_none(self):
        return mknot(self.has_val)

    def get(self):
        """The value; None compares with nothing."""
        if not bool(self.has_val):
            raise TypeError('comparison with None')
        return self.val

    def __eq__(self, o):
        if isinstance(o, Opt):
            return sor(sand(self.has_val, o.has_val, val_eq(self.val, o.val)),
                       sand(mknot(self.has_val), mknot(o.has_val)))
        if o is None:
            return mknot(self.has_val)
        return sand(self.has_val, val_eq(self.val, o))

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self.get() < plain(o)

    def __gt__(self, o):
        return self.get() > plain(o)

    def __le__(self, o):
        return self.get() <= plain(o)

    def __ge__(self, o):
        return self.get() >= plain(o)

    def __add__(self, o):
        return self.get() + plain(o)


def plain(x):
    return x.get() if isinstance(x, Opt) else x


def options(M):
    """Membership and equality of optional values."""
    old, oldc = M.contains, M.compare

    def contains(interp, cont, x):
        if isinstance(x, Opt):
            if isinstance(cont, SSeq):
                return member(cont, x)
            r = sand(x.has_val, interp.contains(cont, x.val))
            if isinstance(cont, (list, tuple, set)) and any(y is None for y in cont):
                r = sor(r, mknot(x.has_val))
            return r
        return old(interp, cont, x)

    def compare(interp, fn, a, b):
        if isinstance(b, Opt) and not isinstance(a, Opt) and fn in (operator.eq, operator.ne):
            return fn(b, a)
        if isinstance(b, Opt) and fn not in (operator.eq, operator.ne):
            return fn(plain(a), b.get())
        return oldc(interp, fn, a, b)
    M.contains, M.compare = contains, compare


TIMEOF = z3.Function('time named by', SS, I)


class When(Sym):
    """A date-time: only its order, equality and differences matter here."""

    pytype = datetime.datetime

    def __init__(self, t):
        self.t = t if isinstance(t, SInt) else SInt.of(t)

    def _cmp(self, o, op):
        if not isinstance(o, When):
            return NotImplemented
        return op(self.t, o.t)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self.t == o.t if isinstance(o, When) else False

    def __ne__(self, o):
        return self.t != o.t if isinstance(o, When) else True

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def __add__(self, o):
        return When(self.t + o.t) if isinstance(o, Span) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, When):
            return Span(self.t - o.t)
        return When(self.t - o.t) if isinstance(o, Span) else NotImplemented

    def terms(self):
        return [self.t.t]


class Span(When):
    pytype = datetime.timedelta

    def __abs__(self):
        return Span(abs(self.t))

    def __add__(self, o):
        return type(o)(self.t + o.t) if isinstance(o, When) else NotImplemented

    def __bool__(self):
        return bool(self.t != 0)


class Half(Sym):
    """The date or the clock part of a date-time."""

    def __init__(self, pytype, of):
        self.pytype, self.of = pytype, of

    def terms(self):
        return [self.of.t.t]


def times(M):
    """datetime.strptime of a request and datetime.combine of the two halves of a time."""
    def strptime(it, slf, a, k):
        if isinstance(a[0], SStr) and a[1] == '%Y%m%d%H%M':
            return When(TIMEOF(a[0].t))
        return NotImplemented
    M.table[(id(type), 'strptime')] = strptime

    def combine(it, slf, a, k):
        if len(a) == 2 and isinstance(a[0], Half) and isinstance(a[1], Half):
            if a[0].pytype is datetime.date and a[1].pytype is datetime.time and \
                    a[0].of is a[1].of:
                return a[0].of
            raise Unsupported('halves of different times')
        return NotImplemented
    M.table[(id(type), 'combine')] = combine
    old = M.lookup(abs)
    M.reg(abs, lambda it, a, k: a[0].__abs__() if isinstance(a[0], Span) else (
        old(it, a, k) if old else NotImplemented))


def seq(name, mk):
    c = ctx()
    n = SInt.var(f'n_{name}')
    c.assume(n >= 0)
    cache = {}
    return SSeq(n, lambda i: cache.setdefault(ikey(i), mk(i)))


class Req:
    """One filter: the argument given, what a selected value satisfies and what a rejected one
    violates."""

    def __init__(self, arg, holds, fails=None):
        self.arg, self.holds = arg, holds
        self.fails = fails or (lambda x: mknot(holds(x)))


NO = Req(None, lambda x: True)


def name_request(name, form):
    """A request by name; inventory names are upper case."""
    f = z3.Function(f'{name} asked', I, SS)
    if form == 'none':
        return NO
    if form == 'single':
        one = SStr(z3.Const(f'{name} one', SS))
        return Req(one, lambda x: val_eq(x, one.upper()))
    many = seq(name, lambda i: SStr(f(zi(i))))
    up = SSeq(many.length, lambda i: many.item(i).upper())
    return Req(many, lambda x: member(up, x))


def number_request(name, form, sort=I, read=lambda v: v):
    wrap = SInt.of if sort is I else SReal
    f = z3.Function(f'{name} asked', I, sort)
    if form == 'none':
        return NO
    if form == 'single':
        one = wrap(z3.Const(f'{name} one', sort))
        return Req(one, lambda x: val_eq(x, one))
    many = seq(name, lambda i: wrap(f(zi(i))))
    return Req(many, lambda x: member(many, x))


def time_request(name, form, of, items):
    """of(item): its time or None; items: the inventory."""
    if form in EXTREMES:
        items.ghosts.append(items.arbitrary)
    if form == 'none':
        return NO
    if form == 'single':
        one = When(SInt.var(f'{name} one'))
        return Req(one, lambda x: val_eq(x, one))
    if form == 'text':
        one = SStr(z3.Const(f'{name} text', SS))
        for w in EXTREMES:
            ctx().assume(one != w)
        return Req(one, lambda x: val_eq(x, When(TIMEOF(one.t))))
    if form in ('list', 'texts'):
        f = z3.Function(f'{name} asked', I, I if form == 'list' else SS)
        if form == 'list':
            many = seq(name, lambda i: When(f(zi(i))))
            return Req(many, lambda x: member(many, x))
        many = seq(name, lambda i: SStr(f(zi(i))))
        read = SSeq(many.length, lambda i: When(TIMEOF(many.item(i).t)))
        return Req(many, lambda x: member(read, x))

    def split(x):
        return (x.has_val, x.val) if isinstance(x, Opt) else (True, x)

    def beyond(a, b):
        return a > b if form.lower() == 'last' else a < b

    def holds(x):
        # no item (an arbitrary one) is beyond a selected one
        has, x = split(x)
        hy, y = split(of(items.item(items.arbitrary)))
        return sand(has, mknot(sand(hy, beyond(y, x))))

    def fails(x):
        has, x = split(x)
        ys = [split(of(items.item(g))) for g in items.ghosts]
        return sor(mknot(has), *[sand(hy, beyond(y, x)) for hy, y in ys])
    return Req(form, holds, fails)


EXTREMES = ('first', 'FIRST', 'last', 'LAST')
TIME_FORMS = ('none', 'single', 'text', 'list', 'texts') + EXTREMES
FORMS = ('none', 'single', 'list')


class Inventory(Sym):
    """The set of entries of a file; sorted() lists them in inventory order."""

    pytype = set

    def __init__(self, items):
        self.items = items


def inventory(M, mk):
    c = ctx()
    n, g, w = SInt.var('inventory'), SInt.var('g'), SInt.var('w')
    for x in (g, w):
        c.assume(x >= 0)
        c.assume(x < n)
    items = seq('inventory', mk)
    items.length = n
    items.ghosts = [g]
    items.arbitrary, items.g = w, g

    def ordered(interp, args, kw):
        if isinstance(args[0], Inventory) and not kw and len(args) == 1:
            return items
        return NotImplemented
    M.reg(sorted, ordered)
    old = M.symbolic_iter
    M.symbolic_iter = lambda interp, v: items if isinstance(v, Inventory) and M.unordered \
        else old(interp, v)
    M.unordered = False
    return items


def decide(c, reqs, of, items):
    """Facts at the ghost index: (every filter holds, some filter fails)."""
    e = items.item(items.g)
    vals = [(r, o(e)) for r, o in zip(reqs, of)]
    return (sand(*[r.holds(v) for r, v in vals]),
            sor(*[r.fails(v) for r, v in vals if r is not NO]))


class Buffer:
    """A read-only stream of 32-bit words (by byte position): every read is a function of where it
    is done."""

    WORD = z3.Function('word at', I, I)

    def __init__(self, order='big'):
        self.pos, self.order = None, order

    def lose(self):
        self.pos = None

    def jump_to(self, mark, offset=0):
        self.pos = mark + offset

    def set_mark(self):
        return self.here()

    def here(self):
        if self.pos is None:
            raise Unsupported('read from an unknown place')
        return self.pos

    def read_int(self, size, endian, signed):
        if size != 4:
            raise Unsupported('word size')
        ctx().oblige('numbers are read in the byte order of the file', endian == self.order)
        v = SInt.of(self.WORD(zi(self.here())))
        self.pos = self.pos + size
        return v

    def skip(self, n):
        self.pos = self.here() + n


def word(pos):
    return SInt.of(Buffer.WORD(zi(pos)))


class Lost(Sym):
    """An attribute left over from another iteration."""

    def __init__(self, name):
        self.name = name


class Data(Sym):
    """An array of the file: element p is val(p); shape changes keep the elements."""

    pytype = None

    def __init__(self, val, ndim, where=None):
        self.val, self.ndim, self.where = val, ndim, where

    def reshape(self, *shape):
        k = shape[0] if len(shape) == 1 else shape
        return Data(self.val, len(k) if isinstance(k, (tuple, list)) else 1, self.where)

    def __getitem__(self, k):
        if isinstance(k, int) and not isinstance(k, bool) and self.ndim == 1 and k >= 0:
            return self.val(k)
        ks = k if isinstance(k, tuple) else (k,)
        if not all(x is None or x is Ellipsis or x == slice(None) for x in ks):
            raise Unsupported('element of grid data')
        new = sum(x is None for x in ks)
        return type(self)(self.val, self.ndim + new, self.where)

    def astype(self, dtype):
        return self

    def __eq__(self, o):
        return Data(lambda p: val_eq(self.val(p), o), self.ndim)

    __hash__ = Sym.__hash__


class Masked(Data):
    """where: the mask."""


def masked(M):
    """np.ma.array(data, mask=..., dtype=...): the same elements, masked where the mask is true."""
    import numpy as np

    def ma(it, args, kw):
        d = args[0] if args else kw['data']
        if not isinstance(d, Data):
            return NotImplemented
        if set(kw) - {'data', 'mask', 'dtype'} or len(args) > 1:
            raise Unsupported('masked array options')
        m = kw.get('mask')
        if isinstance(m, Data):
            return Masked(d.val, d.ndim, m.val)
        if m is None or m is False:
            return Masked(d.val, d.ndim, lambda p: False)
        raise Unsupported('mask')
    for f in (np.ma.array, np.ma.masked_array, np.ma.MaskedArray):
        M.reg(f, ma)
    prev = M.lookup(np.array)
    M.reg(np.array, lambda it, a, k: a[0] if isinstance(a[0], Data) else (
        prev(it, a, k) if prev else NotImplemented))
