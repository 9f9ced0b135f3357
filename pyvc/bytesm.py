"""Byte strings of symbolic length and content, and the struct module over them.

A byte string is a list of segments: raw views of an arbitrary buffer, packed values (one field
or an array of one field type), text and fill bytes.  Assumed contract of struct: pack lays the
fields out in order at the sizes the format gives, refuses values outside a field's range and a
wrong number of values, and unpack returns what was packed; a 32-bit real is treated as the real
that was stored.
"""
import re
import struct

import numpy as np
import z3

from .core import (PathEnd, SBool, SBV, SInt, SReal, Sym, Unsupported, ctx, deep_sym, is_sym, ite,
                   mkbool, mknot, sand, simplies, sor, to_real)
from .models import (Digits, Num, SFmt, SSeq, SStr, Star)
from .nparr import SArr

CODES = {'b': (1, -2**7, 2**7 - 1), 'B': (1, 0, 2**8 - 1), 'h': (2, -2**15, 2**15 - 1),
         'H': (2, 0, 2**16 - 1), 'i': (4, -2**31, 2**31 - 1), 'I': (4, 0, 2**32 - 1),
         'l': (4, -2**31, 2**31 - 1), 'L': (4, 0, 2**32 - 1), 'q': (8, -2**63, 2**63 - 1),
         'Q': (8, 0, 2**64 - 1)}
REALS = {'f': 4, 'd': 8}


def ival(x):
    return x.t if isinstance(x, SInt) else z3.IntVal(int(x))


def known(d):
    """Concrete value of a linear form, or None."""
    return d if not is_sym(d) else None


class Raw:
    """View of an arbitrary buffer."""

    def __init__(self, base, start, length):
        self.base, self.start, self.length = base, start, length

    def sub(self, a, n):
        return Raw(self.base, self.start + a, n)

    def field(self, off, code, endian):
        at = self.start + off
        if code in REALS:
            f = z3.Function(f'{self.base}.{code}{endian}', z3.IntSort(), z3.RealSort())
            return SReal(f(ival(at)))
        sz, lo, hi = CODES[code]
        f = z3.Function(f'{self.base}.{code}{endian if sz > 1 else ""}', z3.IntSort(),
                        z3.IntSort())
        v = SInt.of(f(ival(at)))
        ctx().assume(sand(v >= lo, v <= hi))
        return v


class Field:
    def __init__(self, code, endian, value):
        self.code, self.endian, self.value = code, endian, value
        self.length = REALS.get(code) or CODES[code][0]


class Arr:
    """Consecutive fields of one type."""

    def __init__(self, code, endian, seq):
        self.code, self.endian, self.seq = code, endian, seq
        self.size = REALS.get(code) or CODES[code][0]
        self.length = seq.length * self.size


class Text:
    """Encoded text without NUL bytes."""

    def __init__(self, s, length):
        self.s, self.length = s, length


class Fill:
    def __init__(self, byte, length):
        self.byte, self.length = byte, length


class Lit:
    def __init__(self, b):
        self.b = bytes(b)
        self.length = len(b)


class SBytes(Sym):
    pytype = bytes

    def __init__(self, segs, pytype=bytes):
        self.segs = [s for s in segs if not (known(s.length) == 0)]
        self.pytype = pytype

    @staticmethod
    def arbitrary(name, length, pytype=bytes):
        return SBytes([Raw(name, 0, length)], pytype)

    @property
    def length(self):
        n = 0
        for s in self.segs:
            n = n + s.length
        return n

    def sym_len(self):
        return self.length

    def __bool__(self):
        return bool(self.length > 0)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SBytes([Lit(o)])
        if not isinstance(o, SBytes):
            return NotImplemented
        return SBytes(self.segs + o.segs, self.pytype)

    def __radd__(self, o):
        return SBytes([Lit(o)] + self.segs, self.pytype)

    def locate(self, off):
        """Index of the segment starting at off (which must be decidable), and inner offset."""
        p = 0
        for k, s in enumerate(self.segs):
            d = off - p
            if known(d) == 0:
                return k, 0
            e = d - s.length
            if known(e) is not None:
                if e < 0 and known(d) is not None or e < 0:
                    return k, d
                p = p + s.length
                continue
            if k == len(self.segs) - 1:
                return k, d
            if mkbool(ival(e) < 0) if is_sym(e) else e < 0:
                return k, d
            p = p + s.length
        return len(self.segs), 0

    def sub(self, start, n):
        """The n bytes from start (within bounds)."""
        k, d = self.locate(start)
        out = []
        rem = n
        while k < len(self.segs) and not known(rem) == 0:
            s = self.segs[k]
            avail = s.length - d
            take_all = known(rem - avail)
            if take_all is None:
                take_all = bool(rem >= avail)
            else:
                take_all = take_all >= 0
            m = avail if take_all else rem
            if known(d) == 0 and take_all:
                out.append(s)
            elif isinstance(s, Raw):
                out.append(s.sub(d, m))
            elif isinstance(s, Lit) and known(d) is not None and known(m) is not None:
                out.append(Lit(s.b[d:d + m]))
            elif isinstance(s, Fill):
                out.append(Fill(s.byte, m))
            elif isinstance(s, Arr) and known(d) is not None and d % s.size == 0:
                q = d // s.size
                seq = s.seq
                out.append(Arr(s.code, s.endian, SSeq(
                    m // s.size if not is_sym(m) else exact_div(m, s.size),
                    lambda i, q=q, seq=seq: seq.item(i + q))))
            elif isinstance(s, Arr) and exact_div(d, s.size) is not None:
                q = exact_div(d, s.size)
                seq = s.seq
                out.append(Arr(s.code, s.endian, SSeq(
                    exact_div(m, s.size), lambda i, q=q, seq=seq: seq.item(i + q))))
            else:
                raise Unsupported(f'slice inside a {type(s).__name__} segment')
            rem = rem - m
            k, d = k + 1, 0
        return SBytes(out, self.pytype)

    def field(self, off, code, endian):
        k, d = self.locate(off)
        if k >= len(self.segs):
            raise Unsupported('read past the end')
        s = self.segs[k]
        if isinstance(s, Raw):
            return s.field(d, code, endian)
        if isinstance(s, Field) and known(d) == 0 and s.code == code and (
                s.endian == endian or s.length == 1):
            return s.value
        if isinstance(s, Arr) and s.code == code and s.endian == endian:
            q = exact_div(d, s.size)
            if q is not None:
                return s.seq.item(q)
        if isinstance(s, Lit) and known(d) is not None:
            n = REALS.get(code) or CODES[code][0]
            if d + n <= len(s.b):
                return struct.unpack_from({'=': '='}.get(endian, endian) + code, s.b, d)[0]
        if isinstance(s, Fill) and s.byte == 0:
            return 0 if code in CODES else 0.0
        if isinstance(s, Field) and known(d) == 0 and s.length == 4 and code == 'i' and \
                s.code == 'f' or isinstance(s, Field) and s.endian != endian:
            # other interpretation of the stored bytes: unknown value
            f = z3.Function(f'as.{s.code}{s.endian}.{code}{endian}',
                            z3.RealSort() if s.code in REALS else z3.IntSort(), z3.IntSort()
                            if code in CODES else z3.RealSort())
            a = to_real(s.value).t if s.code in REALS else ival(s.value)
            r = f(a)
            return SInt.of(r) if code in CODES else SReal(r)
        raise Unsupported(f'field {endian}{code} over a {type(s).__name__} segment')

    def item(self, i):
        return self.field(i, 'B', '')

    # -- bytes interface ----------------------------------------------------------------
    def key(self):
        """Identity term of the content of a single raw view."""
        if len(self.segs) == 1 and isinstance(self.segs[0], Raw):
            s = self.segs[0]
            f = z3.Function(f'{s.base}.text', z3.IntSort(), z3.IntSort(), SStr.S)
            return f(ival(s.start), ival(s.length))
        return None

    def decode(self, *a, **k):
        if not self.segs:
            return ''
        if len(self.segs) == 1 and isinstance(self.segs[0], Text):
            return self.segs[0].s
        if all(isinstance(s, Lit) for s in self.segs):
            return b''.join(s.b for s in self.segs).decode(*a, **k)
        t = self.key()
        if t is not None:
            r = SStr(t)
            r.raw = self.segs[0]
            return r
        raise Unsupported('decode of mixed bytes')

    def split(self, sep=None, maxsplit=-1):
        if sep == b'\x00':
            if self.segs and isinstance(self.segs[0], Text) and all(
                    isinstance(s, Fill) and s.byte == 0 for s in self.segs[1:]):
                return [SBytes([self.segs[0]], self.pytype)]
            if self.segs and isinstance(self.segs[0], Text) and all(
                    isinstance(s, Lit) for s in self.segs[1:]):
                rest = b''.join(s.b for s in self.segs[1:]).split(b'\0')
                if rest[0] == b'':
                    return [SBytes([self.segs[0]], self.pytype)] + rest[1:]
            if all(isinstance(s, Fill) and s.byte == 0 for s in self.segs):
                return [b'']
            if len(self.segs) == 1 and isinstance(self.segs[0], Raw):
                return [SBytes([before_nul(self.segs[0])], self.pytype)]
        raise Unsupported('split')

    def rstrip(self, *a):
        if len(self.segs) == 1 and isinstance(self.segs[0], Text):
            return self
        raise Unsupported('rstrip')

    strip = rstrip

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            n = self.length
            if not (n == len(o)):
                return False
            return sand(*[self.item(i) == o[i] for i in range(len(o))])
        if isinstance(o, SBytes):
            return same_bytes(self, o)
        return False

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'<SBytes {[type(s).__name__ for s in self.segs]} {self.length}>'


def before_nul(s):
    """The part of a raw view before its first NUL (all of it when there is none)."""
    f = z3.Function(f'{s.base}.nul', z3.IntSort(), z3.IntSort(), z3.IntSort())
    n = SInt.of(f(ival(s.start), ival(s.length)))
    ctx().assume(sand(n >= 0, n <= s.length))
    return s.sub(0, n)


def same_bytes(a, b):
    if len(a.segs) != len(b.segs):
        raise Unsupported('comparison of byte strings')
    out = []
    for s, t in zip(a.segs, b.segs):
        if isinstance(s, Raw) and isinstance(t, Raw) and s.base == t.base:
            out.append(sand(s.start == t.start, s.length == t.length))
        elif isinstance(s, Lit) and isinstance(t, Lit):
            out.append(s.b == t.b)
        else:
            raise Unsupported('comparison of byte strings')
    return sand(*out)


def exact_div(x, m):
    """x / m when every coefficient is a multiple of m, else None."""
    if not is_sym(x):
        return x // m if x % m == 0 else None
    if x.c % m or any(v % m for v in x.lin.values()):
        return None
    return SInt.mk({k: v // m for k, v in x.lin.items()}, x.c // m)


# --------------------------------------------------------------------------------------
# struct


class Fmt:
    """Parsed format: items (code, count, offset); counts may be symbolic (single item)."""

    def __init__(self, fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if isinstance(fmt, str):
            if fmt and fmt[0] in '@=<>!':
                self.endian, body = fmt[0], fmt[1:]
            else:
                self.endian, body = '@', fmt
            self.size = struct.calcsize(fmt)
            self.items = []
            pos = ''
            for cnt, code in re.findall(r'(\d*)\s*([a-zA-Z?])', body):
                off = struct.calcsize(self.endian + pos + '0' + code)
                self.items.append((code, int(cnt) if cnt else 1, off))
                pos += (cnt or '') + code
            if self.endian in '@=':
                self.endian = '<'
            if self.endian == '!':
                self.endian = '>'
            return
        if isinstance(fmt, SFmt):
            parts = list(fmt.parts)
            endian = '@'
            if isinstance(parts[0], str):
                if parts[0][:1] in '@=<>!':
                    endian = parts[0][0]
                    parts[0] = parts[0][1:]
                if not parts[0]:
                    parts.pop(0)
            items = []
            off = 0
            cnt = None
            for p in parts:
                if isinstance(p, (Num,)):
                    cnt = p.term
                elif isinstance(p, str):
                    for dg, code in re.findall(r'(\d*)\s*([a-zA-Z?])', p):
                        n = cnt if cnt is not None else int(dg) if dg else 1
                        if endian == '@' and items:
                            raise Unsupported('native alignment with a symbolic count')
                        if is_sym(n) and not (n >= 0):
                            raise struct.error('bad char in struct format')
                        items.append((code, n, off))
                        sz = REALS.get(code) or (CODES[code][0] if code in CODES else 1)
                        off = off + n * sz
                        cnt = None
                else:
                    raise Unsupported('struct format')
            self.items, self.size = items, off
            self.endian = '>' if endian in '>!' else '<'
            return
        raise Unsupported('struct format')

    def unpack(self, b, off):
        out = []
        for code, n, o in self.items:
            at = off + o
            if code == 'x':
                continue
            if code in 'sp':
                out.append(b.sub(at, n))
                continue
            if code == 'c':
                out.extend(b.sub(at + j, 1) for j in range(n))
                continue
            sz = REALS.get(code) or CODES[code][0]
            if is_sym(n):
                seq = SSeq(n, lambda i, at=at, sz=sz, code=code: b.field(at + i * sz, code,
                                                                         self.endian), tuple)
                if len(self.items) != 1:
                    raise Unsupported('symbolic count in a mixed format')
                return seq
            for j in range(n):
                out.append(b.field(at + j * sz, code, self.endian))
        return tuple(out)

    def pack(self, args):
        args = list(args)
        segs = []
        pos = 0
        for code, n, o in self.items:
            gap = o - pos
            if not is_sym(gap) and gap:
                segs.append(Fill(0, gap))
            if code == 'x':
                segs.append(Fill(0, n))
                pos = o + n
                continue
            if code in 'sp':
                if not args:
                    raise struct.error('pack expected more items')
                v = args.pop(0)
                segs.extend(pack_s(v, n))
                pos = o + n
                continue
            sz = REALS.get(code) or CODES[code][0]
            left = n
            while not known(left) == 0:
                if not args:
                    if is_sym(left) and not (left > 0):
                        break
                    raise struct.error('pack expected more items')
                v = args.pop(0)
                if isinstance(v, Star):
                    seq = v.seq
                    self.check_arr(seq, code)
                    d = known(left - seq.length)
                    if d is None:
                        d = 0 if bool(left >= seq.length) else -1
                    if d < 0:
                        raise struct.error('pack expected fewer items')
                    segs.append(Arr(code, self.endian, seq))
                    left = left - seq.length
                    continue
                if is_sym(left) and not (left > 0):
                    raise struct.error('pack expected fewer items')
                self.check(v, code)
                segs.append(Field(code, self.endian, v))
                left = left - 1
            pos = o + n * sz
        if args:
            a = args[0]
            if all(isinstance(a, Star) and not (a.seq.length > 0) for a in args):
                return SBytes(segs)
            raise struct.error('pack expected fewer items')
        return SBytes(segs)

    def check(self, v, code):
        if code in CODES:
            if isinstance(v, SReal) or isinstance(v, float):
                raise struct.error('required argument is not an integer')
            if v is None or isinstance(v, (str, bytes)):
                raise struct.error('required argument is not an integer')
            if isinstance(v, SBV):
                lo, hi = v.range()
                if lo >= CODES[code][1] and hi <= CODES[code][2]:
                    return
                v = v.to_int()
            _sz, lo, hi = CODES[code]
            if not sand(v >= lo, v <= hi):
                raise struct.error(f'{code!r} format requires {lo} <= number <= {hi}')
        elif v is None or isinstance(v, (str, bytes)):
            raise struct.error('required argument is not a float')

    def check_arr(self, seq, code):
        if code in CODES:
            c = ctx()
            i = SInt.var(c.fresh_name('packidx'))
            c.assume(sand(i >= 0, i < seq.length))
            # an out of range element raises; the harness states the element range
            _sz, lo, hi = CODES[code]
            v = seq.item(i)
            if isinstance(v, SBV):
                a, b = v.range()
                if a >= lo and b <= hi:
                    return
            if isinstance(v, SInt):
                c.oblige('pack.element_range', sand(v >= lo, v <= hi))


def pack_s(v, n):
    if isinstance(v, (bytes, bytearray)):
        if is_sym(n):
            raise Unsupported('Ns with symbolic N')
        return [Lit(bytes(v[:n]).ljust(n, b'\0'))]
    if isinstance(v, SBytes):
        ln = v.length
        if known(ln - n) == 0:
            return v.segs
        if ln <= n:
            return v.segs + [Fill(0, n - ln)]
        return v.sub(0, n).segs
    raise struct.error("argument for 's' must be a bytes object")


class SStruct(Sym):
    """struct.Struct whose format has a symbolic count."""

    def __init__(self, fmt):
        self.fmt = Fmt(fmt)
        self.size = self.fmt.size

    def pack(self, *args):
        return self.fmt.pack(args)

    def unpack(self, b):
        return unpack(self.fmt, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.fmt, b, offset)


def as_bytes(b):
    if isinstance(b, SBytes):
        return b
    if isinstance(b, (bytes, bytearray, memoryview)):
        return SBytes([Lit(b)])
    raise TypeError('a bytes-like object is required')


def unpack(fmt, b):
    b = as_bytes(b)
    if not (b.length == fmt.size):
        raise struct.error(f'unpack requires a buffer of {fmt.size} bytes')
    return fmt.unpack(b, 0)


def unpack_from(fmt, b, offset):
    b = as_bytes(b)
    if not (offset >= 0):
        raise Unsupported('negative offset')
    if not (offset + fmt.size <= b.length):
        raise struct.error('unpack_from requires a larger buffer')
    return fmt.unpack(b, offset)


DT = {'f4': 'f', 'f8': 'd', 'i4': 'i', 'i2': 'h', 'i1': 'b', 'u1': 'B', 'u2': 'H', 'u4': 'I',
      'i8': 'q', 'u8': 'Q'}


def frombuffer(buf, dtype=float, count=-1, offset=0):
    b = as_bytes(buf)
    dt = np.dtype(dtype)
    code = DT[dt.kind + str(dt.itemsize)]
    endian = '>' if dt.byteorder == '>' else '<'
    if not is_sym(count) and count < 0:
        raise Unsupported('frombuffer of the rest')
    if not (offset + count * dt.itemsize <= b.length):
        raise ValueError('buffer is smaller than requested size')
    if is_sym(count) and not (count >= 0):
        raise Unsupported('negative count')
    if not sor(count > 0, offset <= b.length):
        raise ValueError('offset must be non-negative and no greater than buffer length')
    return SArr((count,), dt, lambda i: b.field(offset + i * dt.itemsize, code, endian))


def register(M):
    T = M.table

    def st(name, f):
        def m(interp, slf, args, kw):
            if not (deep_sym(args) or deep_sym(kw)):
                return NotImplemented
            return f(Fmt(slf.format), *args, **kw)
        T[(id(struct.Struct), name)] = m
    st('pack', lambda fmt, *a: fmt.pack(a))
    st('unpack', unpack)
    st('unpack_from', lambda fmt, buffer, offset=0: unpack_from(fmt, buffer, offset))

    def when(f):
        def m(interp, args, kw):
            if not (deep_sym(args) or deep_sym(kw)) and not any(
                    isinstance(a, Star) for a in args):
                return NotImplemented
            return f(*args, **kw)
        return m
    M.reg(struct.Struct, when(SStruct))
    M.reg(struct.pack, when(lambda fmt, *a: Fmt(fmt).pack(a)))
    M.reg(struct.unpack, when(lambda fmt, b: unpack(Fmt(fmt), b)))
    M.reg(struct.unpack_from, when(
        lambda fmt, buffer, offset=0: unpack_from(Fmt(fmt), buffer, offset)))
    M.reg(struct.calcsize, when(lambda fmt: Fmt(fmt).size))
    M.reg(np.frombuffer, when(frombuffer))

    def conv(ty):
        def m(interp, args, kw):
            if args and isinstance(args[0], SBytes):
                return SBytes(args[0].segs, ty)
            if args and isinstance(args[0], SInt) and ty in (bytes, bytearray):
                if not (args[0] >= 0):
                    raise ValueError('negative count')
                return SBytes([Fill(0, args[0])], ty)
            return NotImplemented
        return m
    for ty in (bytes, bytearray, memoryview):
        M.reg(ty, conv(ty if ty is not memoryview else bytes))

    def from_bytes(interp, slf, args, kw):
        if not deep_sym(args):
            return NotImplemented
        b, endian = args[0], (args[1] if len(args) > 1 else kw.get('byteorder', 'big'))
        signed = kw.get('signed', False)
        n = b.length
        if is_sym(n):
            n = n.concrete()
            if n is None:
                raise Unsupported('from_bytes of symbolic length')
        code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}.get(n)
        if n == 0:
            return 0
        if code is None:
            raise Unsupported('from_bytes size')
        return b.field(0, code if signed else code.upper(), '>' if endian == 'big' else '<')
    T[(id(type), 'from_bytes')] = from_bytes

    old_get, old_iter, old_symiter, old_bin = M.getitem, M.iterate, M.symbolic_iter, M.binop

    def getitem(interp, o, k):
        if isinstance(o, (bytes, bytearray)) and deep_sym(
                (k.start, k.stop, k.step) if isinstance(k, slice) else k):
            o = SBytes([Lit(o)], type(o))
        if isinstance(o, SBytes):
            from . import nparr
            if isinstance(k, slice):
                a, _b, stp, ln = nparr.norm_slice(k, o.length)
                if stp != 1:
                    raise Unsupported('byte slice step')
                return o.sub(a, ln)
            k = nparr.fix_index(k, o.length)
            return o.item(k)
        return old_get(interp, o, k)

    def iterate(interp, v):
        if isinstance(v, SBytes):
            raise Unsupported('iteration over bytes')
        return old_iter(interp, v)

    def binop(interp, op, a, b):
        import operator
        if op in (operator.add, operator.iadd) and isinstance(b, SBytes) and isinstance(
                a, (bytes, bytearray)):
            return SBytes([Lit(a)], type(a)) + b
        return old_bin(interp, op, a, b)
    M.getitem, M.iterate, M.binop = getitem, iterate, binop
    return M
