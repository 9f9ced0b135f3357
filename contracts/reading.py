"""A file as words being read: the buffer handed to the readers (C06-C09, C17).

INT, REAL, TEXT: what the word at a byte position holds, in the byte order of the file.  Every
read of a number is obliged to use that order, and every read of text to use none; the same
file stored in the other order then gives the same INT, REAL and TEXT, so whatever the readers
are proved to return is the same too.

Readers' loops of symbolic length are summarised by
    each turn reads the same number of bytes, b say (measured, then proved), and appends one
    value to each of the same lists,
so turn k reads [start + k*b, start + (k+1)*b).
"""
import ast
import re
import struct

import z3

from contracts.real_decode import zi
from pyvc import filt
from pyvc.core import (Ctx, PathEnd, SInt, SReal, Sym, Unsupported, ctx, is_sym, ite, mknot, sand,
                       simplies, sor, val_eq)
from pyvc.interp import Frame, Interp, _Break, _Continue
from pyvc.models import SFmt, SSeq, SStr

I, RR, SS = z3.IntSort(), z3.RealSort(), SStr.S
INT, REAL = z3.Function('int at', I, I), z3.Function('real at', I, RR)
TEXT = z3.Function('text at', I, I, SS)      # position, length: blanks stripped
RAWTEXT = z3.Function('raw text at', I, I, SS)


def num(x):
    """A term naming a value, for comparing values of the same kind."""
    return x


class Chars(Sym):
    """Bytes of text at a position, then their text, then it stripped."""

    pytype = bytes

    def __init__(self, at, n, stage=0):
        self.at, self.n, self.stage = at, n, stage
        self.pytype = bytes if stage == 0 else str

    def decode(self, *a, **k):
        if self.stage:
            raise AttributeError('decode')
        return Chars(self.at, self.n, 1)

    def strip(self, *a):
        if a:
            raise Unsupported('strip of given characters')
        if self.stage != 1:
            raise Unsupported('strip of bytes')
        return SStr(TEXT(zi(self.at), zi(self.n)))

    def __eq__(self, o):
        if isinstance(o, str) and self.stage == 1:
            return SStr(RAWTEXT(zi(self.at), zi(self.n))) == o
        if isinstance(o, bytes) and self.stage == 0 and self.n == 4 == len(o) and \
                not is_sym(self.at) and self.at == self.file.version_at:
            # the bytes of a word holding 1
            return o == struct.pack(('>' if self.file.order else '<') + 'i', 1)
        return Sym.__eq__(self, o)

    __hash__ = Sym.__hash__

    def __ne__(self, o):
        return mknot(self == o)

    def __getitem__(self, i):
        raise Unsupported('part of a text')

    # a text is compared by what it says
    def _in(self, keys):
        return sor(*[self == k for k in keys])


def text_at(at, n=4):
    return SStr(TEXT(zi(at), zi(n)))


class SymStruct(Sym):
    """struct.Struct of symbolically many equal items."""

    def __init__(self, order, n, code):
        self.order, self.n, self.code = order, n, code
        self.size = n * 4 if code in 'if' else n


def pieces(fmt):
    """(order, [(code, count, offset)], size) of a format of words and texts."""
    order = fmt[0] if fmt[:1] in ('<', '>', '=', '!', '@') else ''
    out, at = [], 0
    for n, f in re.findall(r'(\d*)([a-zA-Z])', fmt[len(order):]):
        n = int(n or 1)
        if f == 'x':
            at += n
        elif f == 's':
            out.append(('s', n, at))
            at += n
        elif f in 'if':
            for _ in range(n):
                if at % 4:
                    raise Unsupported('number off a word')
                out.append((f, 1, at))
                at += 4
        else:
            raise Unsupported(f'format {f!r}')
    return order, out, at


def spaced(d, step):
    """Whether a distance is a multiple of step by its form."""
    if not is_sym(d):
        return d % step == 0
    return d.c % step == 0 and all(v % step == 0 for v in d.lin.values())


class FileWords(Sym):
    """Stub of IOBuffer (its contracts: C29) over an arbitrary file."""

    def __init__(self, order):
        self.order = order         # the prefix its numbers need: '' or '>'
        self.pos, self.marks = 0, []
        self.known = {}            # byte position -> the integer there
        self.facts = None          # what is known of the word at a position
        self.version_at = None     # position of a word holding 1
        self.turn = None           # where the turn of a reading loop began
        self.used = ()             # (start, size) of headers, all marked used

    def set_mark(self):
        self.marks.append(self.pos)
        return len(self.marks) - 1

    def jump_to(self, mark, offset=0):
        self.pos = self.marks[mark] + offset

    def skip(self, n):
        self.pos = self.pos + n

    def here(self):
        if self.pos is None:
            raise Unsupported('a read from a place left over from another turn')
        return self.pos

    def in_order(self, order):
        same = {'': '', '@': '', '=': '', '<': ''}.get(order, '>')
        ctx().oblige('numbers are read in the byte order of the file', same == self.order)

    def read_int(self, size, endian, signed):
        ctx().oblige('an integer is read as a word', size == 4)
        self.in_order({'little': '<', 'big': '>'}[endian])
        p = self.here()
        v = self.integer(p)
        self.pos = p + 4
        if self.used and (self.turn is not None and filt.ikey(p) == filt.ikey(self.turn) or
                          any(spaced(p - lo, step) for lo, step in self.used)):
            ctx().assume(v == 9999)
        if not is_sym(v):
            return v
        return v if signed else ite(v < 0, v + 2**32, v)

    def integer(self, p):
        if not is_sym(p) and p in self.known:
            return self.known[p]
        v = SInt.of(INT(zi(p)))
        ctx().assume(sand(v >= -2**31, v < 2**31))
        if self.facts is not None:
            self.facts(p, v)
        return v

    def item(self, code, n, at):
        if code == 'i':
            return self.integer(at)
        if code == 'f':
            return SReal(REAL(zi(at)))
        return self.chars(at, n)

    def chars(self, at, n):
        r = Chars(at, n)
        r.file = self
        return r

    def take(self, order, parts, size):
        base = self.here()
        if any(code in 'if' for code, _n, _o in parts):
            self.in_order(order)
        self.pos = base + size
        return [self.item(code, n, base + off) for code, n, off in parts]

    def read_struct(self, st):
        if isinstance(st, SymStruct):
            base, n = self.here(), st.n
            self.pos = base + st.size
            if st.code == 's':
                return (self.chars(base, n),)
            self.in_order(st.order)
            r = SSeq(n, lambda k: self.item(st.code, 1, base + 4 * k), tuple)
            r.ghosts = ()
            r.base = base
            return r
        if isinstance(st, struct.Struct):
            order, parts, size = pieces(st.format)
            return tuple(self.take(order, parts, size))
        order, parts, size = pieces(st._struct.format)
        items = self.take(order, parts, size)
        return self.interp.call(self.interp.getattr(st, '_create'), (items,))

    def read_binary(self, num, item_type='B'):
        if item_type == 'B':
            self.pos, at = self.here() + num, self.here()
            return self.chars(at, num)
        order = item_type[0] if item_type[0] in '@=<>!' else '@'
        code = item_type.lstrip('@=<>!')
        order, parts, size = pieces(f'{order}{int(num)}{code}')
        return self.take(order, parts, size)

    def read_ascii(self, n=None):
        raise Unsupported('read_ascii')


def structs(M):
    old = getattr(M, 'm_struct', None)

    def make(i, a, k):
        f = a[0]
        if isinstance(f, SFmt):
            ps = list(f.parts)
            order = ''
            if isinstance(ps[0], str):
                order = ps.pop(0)
            n, code = ps
            n = getattr(n, 'term', None)
            if n is None or not isinstance(code, str) or len(code) != 1:
                raise Unsupported(f'struct format {f}')
            return SymStruct(order, n, code)
        return NotImplemented
    M.reg(struct.Struct, make)
    return M


# -- loops that read ------------------------------------------------------------------


def holders(interp, f, body):
    """Lists the statements append to: [(get, set)]."""
    out, seen = [], set()

    def add(t):
        key = ast.dump(t)
        if key in seen:
            return
        seen.add(key)
        out.append(t)
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ('append', 'extend', 'add'):
                add(x.func.value)
            elif isinstance(x, ast.AugAssign):
                add(x.target)
    return out


def read_loop(interp, s, f, seq):
    """for over a symbolic range whose turns read on from the last and append one value."""
    b = getattr(interp, 'buffer', None)
    if b is None or s.orelse or any(
            isinstance(x, ast.Attribute) and x.attr == 'jump_to'
            for y in s.body for x in ast.walk(y)):
        return False
    c = ctx()
    inner = set(interp.assigned_in(s.target))
    for x in s.body:
        inner |= interp.assigned_in(x)
    base = {k: v for k, v in f.locals.items() if k not in inner}
    hold = []
    for t in holders(interp, f, s.body):
        if isinstance(t, ast.Attribute) or isinstance(t, ast.Name):
            lst = interp.ev(t, f) if not isinstance(t, ast.Name) or t.id in f.locals else None
        elif isinstance(t, ast.Subscript):
            lst = interp.ev(t, f)
        else:
            return False
        if type(lst) is not list:
            return False
        hold.append((t, lst))
    if not hold:
        return False
    start, n = b.pos, seq.length
    key = ('read', id(s), f.qual, tuple(getattr(interp, 'loop_tags', ())))
    cache = c.state_global.setdefault(key, [])

    def run(k, pos):
        g = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                  defclass=f.defclass)
        g.selfobj = f.selfobj
        g.locals = dict(base)
        b.pos = pos
        was, b.turn = b.turn, pos
        lens = [len(lst) for _t, lst in hold]
        at = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                   defclass=f.defclass)
        at.selfobj = f.selfobj
        at.locals = dict(base)
        pure, interp.pure = interp.pure, None
        now = [interp.ev(load(t), at) for t, _lst in hold]
        for t, lst in hold:
            interp.assign(t_store(t), lst, at)
            if isinstance(t, ast.Name):
                g.locals[t.id] = lst
        for v in interp.step_items(seq, k):
            interp.assign(s.target, v, g)
            try:
                interp.block(s.body, g)
            except _Continue:
                pass
            except _Break:
                raise Unsupported('a reading loop broken off') from None
            except UnboundLocalError as e:
                raise Unsupported(f'loop-carried local: {e}') from None
        b.turn = was
        for (t, _lst), v in zip(hold, now):
            interp.assign(t_store(t), v, at)
        interp.pure = pure
        got = []
        for (_t, lst), m in zip(hold, lens):
            got.append(lst[m:])
            del lst[m:]
        return b.pos - pos, got
    mode = c.choose(['measure', 'body', 'all'])
    k = SInt.var(c.fresh_name('turn'))
    if mode == 'measure':
        c.assume(sand(k >= 0, k < n))
        d, got = run(k, SInt.var(c.fresh_name('from')))
        if not cache:
            cache.append(d)
        raise PathEnd
    step = cache[0] if cache else 0
    if not cache:
        c.oblige('the loop has a measured turn', val_eq(n, 0))
    if mode == 'body':
        c.assume(sand(k >= 0, k < n))
        d, got = run(k, start + k * step)
        c.cover('turn')
        c.oblige('every turn reads the same number of bytes', d == step)
        for g in got:
            c.oblige('every turn appends one value', len(g) == 1)
        raise PathEnd
    c.assume(n >= 0)
    memo = {}

    def at(i):
        kk = filt.ikey(i)
        if kk not in memo:
            ctx().assume(sand(i >= 0, i < n))
            pos = b.pos
            _d, memo[kk] = run(i, start + i * step)
            b.pos = pos
        return memo[kk]
    for j, (t, lst) in enumerate(hold):
        def item(i, j=j, lst=lst, m=len(lst)):
            if m:
                raise Unsupported('values appended to a list of others')
            g = at(i)[j]
            if len(g) != 1:
                raise Unsupported('a turn that appends nothing')
            return g[0]
        r = SSeq(n, item)
        r.ghosts = ()
        interp.assign(t_store(t), r, f)
    b.pos = start + n * step
    for x in inner:
        f.locals.pop(x, None)
    return True


def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def t_store(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Store()
    return t


# -- loops that store under symbolic names --------------------------------------------


class Named(Sym):
    """A dictionary: given entries, then one for each of a sequence of names."""

    pytype = dict

    def __init__(self, d):
        self.d, self.more = dict(d), []
        self.present, self.absent = [], []     # names looked for, and what was found

    def update(self, *a, **kw):
        if kw or len(a) != 1:
            raise Unsupported('update')
        o = a[0]
        if isinstance(o, Named):
            self.d.update(o.d)
            self.more = self.more + o.more
            self.absent = self.absent + o.absent
        else:
            self.d.update(o)

    def keys(self):
        raise Unsupported('names of stored data')

    def spread(self, d):
        """d.update(**self), d holding no more names than its own until then."""
        if '**' in d:
            raise Unsupported('** twice')
        d['**'] = self

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.d:
            return self.d[k]
        raise Unsupported('stored data by name')

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.d[k] = v
            return
        raise Unsupported('store under a symbolic name')


class Probe(Sym):
    def __init__(self):
        self.out = []

    def __setitem__(self, k, v):
        self.out.append((k, v))


def store_loop(interp, s, f, seq):
    """for over a symbolic sequence whose body stores once into one dictionary."""
    if s.orelse or not all(isinstance(x, ast.Assign) for x in s.body):
        return False
    a = s.body[-1]
    if any(not isinstance(t, ast.Name) for x in s.body[:-1] for t in x.targets):
        return False
    if len(a.targets) != 1 or not isinstance(a.targets[0], ast.Subscript):
        return False
    t = a.targets[0].value
    inner = set(interp.assigned_in(s.target))
    for x in s.body:
        inner |= interp.assigned_in(x)
    d = interp.ev(t, f)
    if not isinstance(d, (dict, Named)):
        return False
    base = {k: v for k, v in f.locals.items() if k not in inner}

    def one(k):
        g = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                  defclass=f.defclass)
        g.selfobj = f.selfobj
        g.locals = dict(base)
        p = Probe()
        g.locals['*'] = p
        node = ast.Assign(targets=[ast.Subscript(
            value=ast.Name(id='*', ctx=ast.Load()), slice=a.targets[0].slice,
            ctx=ast.Store())], value=a.value)
        ast.copy_location(node, a)
        ast.fix_missing_locations(node)
        for v in interp.step_items(seq, k):
            interp.assign(s.target, v, g)
            interp.block([*s.body[:-1], node], g)
        (kv,) = p.out
        return kv
    c = ctx()
    if c.choose(['store', 'stored']) == 'store':
        k = SInt.var(c.fresh_name('stored'))
        c.assume(sand(k >= 0, k < seq.length))
        one(k)
        raise PathEnd
    r = d if isinstance(d, Named) else Named(d)
    memo = {}

    def item(k):
        kk = filt.ikey(k)
        if kk not in memo:
            ctx().assume(sand(k >= 0, k < seq.length))
            memo[kk] = one(k)
        return memo[kk]
    q = SSeq(seq.length, item)
    q.ghosts = ()
    r.more = [*r.more, q]
    if r is not d:
        interp.assign(t_store(t), r, f)
    for x in inner:
        f.locals.pop(x, None)
    return True
