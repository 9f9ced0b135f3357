"""Models (assumed contracts) of builtins, struct, datetime and numpy on symbolic values."""
import builtins
import datetime as _dt
import functools
import logging
import math
import operator
import os
import re
import struct

import numpy as np
import z3

from . import nparr
from .core import (SBool, SBV, SInt, SReal, Sym, PathEnd, Unsupported, _is_int, ctx, deep_sym,
                   is_sym, ite, mkbool, mknot, sand, sor, to_real, val_eq)
from .nparr import SArr


class SSeq(Sym):
    """Sequence of symbolic length given by an item function; supports append (functional)."""

    pytype = list

    def __init__(self, length, item, pytype=list, elem=None):
        self.length = length
        self._item = item
        self.pytype = pytype

    def item(self, i):
        return self._item(i)

    def __bool__(self):
        n = self.length
        return bool(n > 0)

    def append(self, v):
        old, n = self._item, self.length

        def item(i):
            e = (i == n)
            if e is True:
                return v
            if e is False:
                return old(i)
            try:
                return ite(e, v, old(i))
            except Unsupported:
                raise
        self._item = item
        self.length = n + 1

    def extend(self, vs):
        if isinstance(vs, SSeq):
            r = self + vs
            self._item, self.length = r._item, r.length
            return
        for v in vs:
            self.append(v)

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            xs = list(o)
            o = SSeq(len(xs), lambda i: nparr.index_concrete(xs, i))
        if not isinstance(o, SSeq):
            return NotImplemented
        a, b, n = self._item, o._item, self.length

        def item(i):
            c = i < n
            if not is_sym(c):
                return a(i) if c else b(i - n)
            return a(i) if SBool(c.t) else b(i - n)
        return SSeq(self.length + o.length, item, self.pytype)

    def __radd__(self, o):
        xs = list(o)
        return SSeq(len(xs), lambda i: nparr.index_concrete(xs, i)) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def copy(self):
        return SSeq(self.length, self._item, self.pytype)

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f'<SSeq len={self.length}>'


class SFmt(Sym):
    """String built from literal pieces, integers and fixed width digit fields."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SFmt):
                out.extend(p.parts)
            elif isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        self.parts = out

    def __add__(self, o):
        return SFmt([self, o])

    def __radd__(self, o):
        return SFmt([o, self])

    def __bool__(self):
        return bool(self.parts)

    def __repr__(self):
        return f'<SFmt {self.parts}>'


class Digits(Sym):
    """Decimal digits of a nonnegative integer, zero padded to an exact width."""

    def __init__(self, term, width):
        self.term = term
        self.width = width

    def __repr__(self):
        return f'<Digits {self.term}:{self.width}>'


class Num(Sym):
    """Decimal text of an integer (no padding)."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f'<Num {self.term}>'


class Decimals(Sym):
    """Text of a real with a fixed number of decimals."""

    def __init__(self, v, spec):
        self.v, self.spec = v, spec


class SStr(Sym):
    """Opaque string value with an identity term (z3 String sort or uninterpreted)."""

    S = z3.DeclareSort('Str')

    def __init__(self, t, length=None):
        self.t = t
        self.length = length

    @staticmethod
    def var(name):
        return SStr(z3.Const(name, SStr.S))

    def _lit(self, o):
        return z3.Const(f'"{o}"', SStr.S)

    def __eq__(self, o):
        if isinstance(o, SStr):
            return mkbool(self.t == o.t)
        if isinstance(o, str):
            ctx_lits(o)
            return mkbool(self.t == self._lit(o))
        return False

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self != '')

    def _fn(self, name):
        f = z3.Function('str.' + name, SStr.S, SStr.S)
        return SStr(f(self.t))

    def upper(self):
        r = self._fn('upper')
        f = z3.Function('str.upper', SStr.S, SStr.S)
        ctx().assume(f(r.t) == r.t)
        return r

    def lower(self):
        r = self._fn('lower')
        f = z3.Function('str.lower', SStr.S, SStr.S)
        ctx().assume(f(r.t) == r.t)
        return r

    def __add__(self, o):
        if isinstance(o, str):
            if not o:
                return self
            ctx_lits(o)
            o = SStr(self._lit(o))
        if not isinstance(o, SStr):
            return NotImplemented
        return SStr(z3.Function('str.cat', SStr.S, SStr.S, SStr.S)(self.t, o.t))

    raw = None      # the bytes it was decoded from

    def strip(self):
        return self._fn('strip')

    def split(self, sep=None, maxsplit=-1):
        if sep == '\x00' and self.raw is not None:
            from .bytesm import SBytes, before_nul
            return [SBytes([before_nul(self.raw)]).decode()]
        raise Unsupported('split of a text')

    def replace(self, a, b):
        return self._fn(f'replace.{a!r}.{b!r}')

    def __repr__(self):
        return f'<SStr {self.t}>'


def ctx_lits(s):
    """Distinctness of string literals."""
    c = ctx()
    lits = c.state.setdefault('lits', {})
    if s not in lits:
        t = z3.Const(f'"{s}"', SStr.S)
        for u in lits.values():
            c.assume(t != u)
        lits[s] = t
    return lits[s]


# --------------------------------------------------------------------------------------


NATIVE_OK = {
    id(x) for x in (
        builtins.min, builtins.max, builtins.zip, builtins.enumerate, builtins.list,
        builtins.tuple, builtins.dict, builtins.reversed, builtins.map, builtins.filter,
        builtins.any, builtins.all, builtins.abs, builtins.divmod, builtins.iter,
        builtins.next, builtins.hasattr, builtins.print, builtins.sum, builtins.id,
        builtins.type, math.isnan, functools.reduce,
    )
}

NATIVE_METH_OWNERS = (list, dict, tuple)


HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')


class Models:
    def __init__(self):
        self.table = {}
        self.extra = {}
        reg = self.reg
        reg(len, self.m_len)
        reg(int, self.m_int)
        reg(float, self.m_float)
        reg(bool, self.m_bool)
        reg(str, self.m_str)
        reg(round, self.m_round)
        reg(range, self.m_range)
        reg(isinstance, self.m_isinstance)
        reg(zip, self.m_zip)
        reg(enumerate, self.m_enumerate)
        reg(list, self.m_list)
        reg(tuple, self.m_list)
        reg(sorted, self.m_sorted)
        reg(set, self.m_set)
        reg(getattr, self.m_getattr)
        reg(hasattr, self.m_hasattr)
        reg(setattr, self.m_setattr)
        reg(callable, lambda i, a, k: NotImplemented)
        reg(math.fabs, lambda i, a, k: abs(a[0]) if deep_sym(a) else NotImplemented)
        reg(math.floor, self.m_floor)
        reg(math.ceil, self.m_ceil)
        reg(min, self.m_min)
        reg(max, self.m_max)
        for nm in ('exp', 'log', 'sqrt'):
            reg(getattr(math, nm), lambda i, a, k, nm=nm: ufelem(nm, *a) if deep_sym(a)
                else NotImplemented)
        self.np_models()

    def reg(self, f, m):
        self.table[id(f)] = (f, m)

    def lookup(self, fn):
        try:
            e = self.table.get(id(fn))
        except Exception:  # noqa: BLE001
            return None
        if e is not None and e[0] is fn:
            return e[1]
        # ufunc.reduce, bound builtin methods
        slf = getattr(fn, '__self__', None)
        if slf is not None:
            if isinstance(slf, logging.Logger):
                return lambda i, a, k: None     # messages are not observed
            m = self.table.get((id(type(slf)), getattr(fn, '__name__', '')))
            if m is not None:
                return lambda i, a, k: m(i, slf, a, k)
        return None

    def native_ok(self, fn):
        if id(fn) in NATIVE_OK:
            return True
        code = getattr(getattr(fn, '__func__', fn), '__code__', None)
        if code is not None and code.co_filename.startswith(HARNESS):
            return True     # stands for an arbitrary function or object, defined by a contract
        if isinstance(fn, Sym) and type(fn).__call__.__code__.co_filename.startswith(HARNESS):
            return True
        slf = getattr(fn, '__self__', None)
        if slf is not None and isinstance(slf, (list, dict)) and getattr(
                fn, '__name__', '') in ('append', 'extend', 'insert', 'pop', 'get', 'items',
                                        'keys', 'values', 'update', 'setdefault', 'copy',
                                        'reverse', 'clear'):
            return True
        if slf is not None and type(slf).__name__ == 'Collector' and \
                getattr(fn, '__name__', '') == 'add':
            return True
        if slf is not None and isinstance(slf, Sym):
            return True
        if isinstance(fn, type) and (issubclass(fn, BaseException) or issubclass(fn, tuple)):
            return True
        if getattr(fn, '__name__', '') == '_make' or (
                slf is not None and isinstance(slf, tuple) and getattr(
                    fn, '__name__', '') in ('_asdict', '_replace')):
            return True
        return False

    def native_with_sym(self, interp, fn, args, kwargs):
        if isinstance(fn, np.ufunc) or getattr(fn, '__module__', '') == 'numpy':
            return NotImplemented
        return NotImplemented

    # -- hooks used by the interpreter -------------------------------------------------
    def attr(self, interp, obj, name):
        if isinstance(obj, SArr) and name == 'T':
            raise Unsupported('transpose')
        return NotImplemented

    def getitem(self, interp, o, k):
        if isinstance(o, SArr):
            return nparr.arr_getitem(o, k)
        if isinstance(o, np.ndarray) and deep_sym(k):
            return nparr.arr_getitem(nparr.as_sarr(o), k)
        if isinstance(o, SSeq):
            return self.seq_getitem(o, k)
        if isinstance(o, (list, tuple)) and isinstance(k, SInt):
            k = nparr.fix_index(k, len(o))
            return nparr.index_concrete(list(o), k)
        if isinstance(o, (list, tuple)) and isinstance(k, slice) and deep_sym(
                (k.start, k.stop, k.step)):
            xs = list(o)
            a, b, st, ln = nparr.norm_slice(k, len(xs))
            if is_sym(a) or is_sym(ln):
                return SSeq(ln, lambda i: nparr.index_concrete(xs, i * st + a))
            return o[a:a + ln * st:st]
        if isinstance(o, dict) and is_sym(k):
            return self.sym_dict_get(o, k)
        return NotImplemented

    def sym_dict_get(self, o, k):
        for kk in o:
            if val_eq(kk, k):
                return o[kk]
        raise KeyError(k)

    def seq_getitem(self, o, k):
        if isinstance(k, slice):
            a, b, st, ln = nparr.norm_slice(k, o.length)
            it = o._item
            return SSeq(ln, lambda i: it(i * st + a), o.pytype)
        k = nparr.fix_index(k, o.length)
        return o.item(k)

    def setitem(self, interp, o, k, v):
        if isinstance(o, SArr):
            nparr.arr_setitem(o, k, v)
            return None
        if isinstance(o, SSeq):
            k = nparr.fix_index(k, o.length)
            old = o._item
            o._item = lambda i: ite(i == k, v, old(i))
            return None
        if isinstance(o, (list, dict)) and is_sym(k):
            if isinstance(o, list):
                k = nparr.fix_index(k, len(o))
                for j in range(len(o)):
                    o[j] = ite(k == j, v, o[j])
                return None
            raise Unsupported('dict store with symbolic key')
        if isinstance(o, np.ndarray) and (deep_sym(k) or deep_sym(v)):
            raise Unsupported('symbolic store into a concrete ndarray')
        return NotImplemented

    def iterate(self, interp, v):
        if isinstance(v, SSeq):
            n = v.length
            if is_sym(n):
                c = n.concrete()
                if c is None:
                    raise Unsupported('iteration over a symbolic-length sequence')
                n = c
            return iter([v.item(i) for i in range(n)])
        if isinstance(v, SArr):
            n = v.shape[0]
            if is_sym(n):
                c = n.concrete()
                if c is None:
                    raise Unsupported('iteration over a symbolic-length array')
                n = c
            return iter([nparr.arr_getitem(v, i) for i in range(n)])
        if isinstance(v, Sym):
            raise TypeError(f'{type(v).__name__} object is not iterable')
        return NotImplemented

    def symbolic_iter(self, interp, v):
        if isinstance(v, SSeq) and is_sym(v.length):
            return v
        if isinstance(v, SArr) and is_sym(v.shape[0]):
            if v.ndim == 1:
                return SSeq(v.shape[0], v.at)
            return SSeq(v.shape[0], lambda i: nparr.arr_getitem(v, i))
        return None

    def map_seq(self, interp, seq, get):
        r = SSeq(seq.length, get)
        r.ghosts = getattr(seq, 'ghosts', ())
        return r

    def star(self, interp, v):
        if isinstance(v, SSeq) and is_sym(v.length):
            return Star(v)
        if isinstance(v, SArr) and is_sym(v.shape[0]):
            return Star(SSeq(v.shape[0], v.at))
        return NotImplemented

    def binop(self, interp, op, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, SArr):
            return op(nparr.as_sarr(a), b)
        if isinstance(a, (np.ndarray,)) and is_sym(b) and not isinstance(b, SArr):
            return op(nparr.as_sarr(a), b)
        if isinstance(a, SArr) and isinstance(b, np.ndarray) and b.ndim:
            return op(a, nparr.as_sarr(b))
        if isinstance(a, np.generic) and is_sym(b):
            return op(a.item(), b)
        if op is operator.mod and isinstance(a, str) and deep_sym(b):
            raise Unsupported('% formatting')
        if isinstance(a, float) and isinstance(b, (SInt, SBool)):
            return op(to_real(a), to_real(b))
        if op in (operator.add, operator.iadd) and isinstance(a, str) and isinstance(b, SFmt):
            return SFmt([a, b])
        if op in (operator.add, operator.iadd) and isinstance(a, list) and isinstance(b, SSeq):
            return b.__radd__(a)
        if op is operator.pow and a == 2 and isinstance(b, SInt):
            h = ctx().state.get('pow2')
            if h:
                return h(b)
        return NotImplemented

    def compare(self, interp, fn, a, b):
        if isinstance(a, np.ndarray) and a.ndim and is_sym(b):
            return fn(nparr.as_sarr(a), b)
        if isinstance(a, SArr) and isinstance(b, np.ndarray) and b.ndim:
            return fn(a, nparr.as_sarr(b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (
                deep_sym(a) or deep_sym(b)):
            if fn is operator.eq:
                if type(a) is not type(b) and not (isinstance(a, tuple) and isinstance(
                        b, tuple)):
                    return False
                return val_eq(a, b)
            if fn is operator.ne:
                return mknot(val_eq(a, b))
        if isinstance(a, np.generic) and is_sym(b):
            return fn(a.item(), b)
        return NotImplemented

    def is_(self, interp, a, b):
        if a is None or b is None:
            for x in (a, b):
                if isinstance(x, SOpt):
                    return x.is_none()
            return a is b
        if isinstance(a, SBool) and isinstance(b, bool):
            return mkbool(a.t == z3.BoolVal(b))
        return a is b

    def contains(self, interp, cont, x):
        if isinstance(cont, SSeq):
            raise Unsupported('membership in a symbolic-length sequence')
        if isinstance(cont, (type({}.values()), type({}.keys()))):
            cont = list(cont)
        if isinstance(cont, (list, tuple, set, frozenset)) and (is_sym(x) or deep_sym(cont)):
            return sor(*[val_eq(y, x) for y in cont])
        if isinstance(cont, dict) and deep_sym(x):
            return sor(*[val_eq(y, x) for y in cont])
        if isinstance(cont, range) and isinstance(x, (SInt, SReal)):
            if not len(cont):
                return False
            lo, hi = min(cont), max(cont)
            if isinstance(x, SReal):
                k = SInt.of(z3.ToInt(x.t))
                whole = mkbool(z3.ToReal(z3.ToInt(x.t)) == x.t)
            else:
                k, whole = x, True
            step = abs(cont.step)
            return sand(whole, k >= lo, k <= hi, True if step == 1 else (k - lo) % step == 0)
        if isinstance(cont, str) and isinstance(x, Sym):
            raise Unsupported('substring test')
        return NotImplemented

    def make_set(self, interp, v):
        return list(v)

    def enter(self, interp, cm):
        return NotImplemented

    def enum_of(self, interp, cls, v):
        """Enum(value) for a symbolic integer: fork over the members."""
        for m in cls:
            if v == m.value:
                return m
        raise ValueError(f'not a valid {cls.__name__}')

    # -- strings -----------------------------------------------------------------------
    def format(self, interp, x, spec):
        if not deep_sym(x) and not deep_sym(spec):
            return format(x, spec)
        if isinstance(x, SFmt) and spec in ('', 's'):
            return x
        if isinstance(x, (SInt, SBool)):
            if isinstance(x, SBool):
                x = x.as_int()
            if isinstance(spec, str):
                m = re.fullmatch(r'0(\d+)d?', spec)
                if m:
                    return fmt_digits(x, int(m.group(1)))
                if spec in ('', 'd'):
                    return SFmt([Num(x)])
        if isinstance(x, SStr) and isinstance(spec, str):
            m = re.fullmatch(r'<?(\d+)s', spec)
            if spec in ('', 's'):
                return SFmt([x])
            if m:
                return SFmt([PadStr(x, int(m.group(1)))])
        if isinstance(x, SReal) and isinstance(spec, str) and spec[-1:] == 'd':
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        if isinstance(x, SReal) and isinstance(spec, str) and re.fullmatch(r'\d*\.\d+f', spec):
            return SFmt([Decimals(x, spec)])
        if isinstance(x, (tuple, list, dict)) or isinstance(x, Sym):
            return SFmt([Opaque(x)])
        raise Unsupported(f'format {type(x).__name__} with {spec!r}')

    def join_str(self, interp, parts):
        return SFmt(parts)

    # -- builtins ----------------------------------------------------------------------
    def m_len(self, interp, args, kw):
        x = args[0]
        if isinstance(x, SSeq):
            return x.length
        if isinstance(x, SArr):
            return x.shape[0]
        if type(x) in (list, tuple, dict, set, frozenset):
            return len(x)
        if isinstance(x, SStr):
            if x.length is None:
                f = z3.Function('str.len', SStr.S, z3.IntSort())
                n = SInt.of(f(x.t))
                ctx().assume(n >= 0)
                return n
            return x.length
        if hasattr(x, 'sym_len'):
            return x.sym_len()
        from .interp import is_repo_class
        if is_repo_class(type(x)):
            c = interp.class_attr(type(x), '__len__')
            if c:
                return interp.call(c[0], (x,))
        return NotImplemented

    def m_int(self, interp, args, kw):
        if not args:
            return NotImplemented
        x = args[0]
        if isinstance(x, SInt):
            return x
        if isinstance(x, SReal):
            return x.trunc()
        if isinstance(x, SBool):
            return x.as_int()
        if isinstance(x, SBV):
            return x
        if isinstance(x, SFmt):
            return fmt_to_int(x)
        if isinstance(x, SArr) and x.size == 1:
            return self.m_int(interp, (x.item(),), kw)
        if isinstance(x, Sym):
            raise Unsupported(f'int({type(x).__name__})')
        return NotImplemented

    def m_float(self, interp, args, kw):
        if args and isinstance(args[0], (SInt, SReal, SBool)):
            return to_real(args[0])
        if args and isinstance(args[0], Sym):
            raise Unsupported('float()')
        return NotImplemented

    def m_bool(self, interp, args, kw):
        if args and isinstance(args[0], SBool):
            return args[0]
        if args and isinstance(args[0], Sym):
            return bool(args[0])
        return NotImplemented

    def m_str(self, interp, args, kw):
        if args and isinstance(args[0], (SStr, SFmt)):
            return args[0]
        if args and deep_sym(args[0]):
            return SFmt([Num(args[0])]) if isinstance(args[0], SInt) else SFmt(
                [Opaque(args[0])])
        return NotImplemented

    def m_round(self, interp, args, kw):
        if is_sym(args[0]):
            nd = args[1] if len(args) > 1 else kw.get('ndigits')
            if isinstance(args[0], SInt):
                return args[0]
            return round(args[0], nd)
        return NotImplemented

    def m_floor(self, interp, args, kw):
        if isinstance(args[0], SReal):
            return SInt.of(z3.simplify(z3.ToInt(args[0].t)))
        return NotImplemented if not is_sym(args[0]) else args[0]

    def m_ceil(self, interp, args, kw):
        if isinstance(args[0], SReal):
            return SInt.of(z3.simplify(-z3.ToInt(-args[0].t)))
        return NotImplemented if not is_sym(args[0]) else args[0]

    def m_range(self, interp, args, kw):
        if not deep_sym(args):
            return NotImplemented
        if len(args) == 1:
            lo, hi, st = 0, args[0], 1
        elif len(args) == 2:
            lo, hi, st = args[0], args[1], 1
        else:
            lo, hi, st = args
        if isinstance(hi, SInt) or isinstance(lo, SInt):
            if is_sym(st):
                raise Unsupported('range step')
            d = hi - lo
            if not is_sym(d):
                n = len(range(0, d, st))
                return [lo + i * st for i in range(n)]
            c = d.concrete()
            if c is not None:
                return [lo + i * st for i in range(len(range(0, c, st)))]
            if st == 1:
                n = d
                if not (n >= 0):
                    return []
            elif st == -1:
                n = lo - hi
                if not (n >= 0):
                    return []
            elif st > 0:
                if not (d >= 0):
                    return []
                n = (d + (st - 1)) // st
            else:
                raise Unsupported('range step')
            return SSeq(n, lambda i: i * st + lo, range)
        raise Unsupported('range of non-integer')

    PYT = {SInt: int, SBV: int, SReal: float, SBool: bool, SArr: np.ndarray, SStr: str, SFmt: str}

    def pytype(self, x):
        if isinstance(x, SSeq):
            return x.pytype
        t = getattr(x, 'pytype', None)
        if t is not None:
            return t
        for c in type(x).__mro__:
            if c in self.PYT:
                return self.PYT[c]
        return None

    def m_isinstance(self, interp, args, kw):
        x, t = args
        from .interp import SObj
        if isinstance(x, SObj):
            ts = t if isinstance(t, tuple) else (t,)
            return any(issubclass(x._cls, u) for u in ts)
        if not isinstance(x, Sym):
            return NotImplemented
        p = self.pytype(x)
        if p is None:
            raise Unsupported(f'isinstance of {type(x).__name__}')
        import types
        if isinstance(t, types.UnionType):
            t = t.__args__
        return issubclass(p, t)

    def m_zip(self, interp, args, kw):
        if not any(self.symbolic_iter(interp, a) is not None for a in args):
            out = [list(interp.iterate(a)) for a in args]
            if kw.get('strict') and len({len(o) for o in out}) > 1:
                raise ValueError('zip() argument lengths differ')
            return list(zip(*out))
        seqs = []
        for a in args:
            s = self.symbolic_iter(interp, a)
            if s is None:
                xs = list(interp.iterate(a))
                s = SSeq(len(xs), lambda i, xs=xs: nparr.index_concrete(xs, i))
            seqs.append(s)
        n = seqs[0].length
        for s in seqs[1:]:
            e = n == s.length
            if not bool(e):
                if kw.get('strict'):
                    raise ValueError('zip() argument lengths differ')
                n = ite(n <= s.length, n, s.length)
        return SSeq(n, lambda i: tuple(s.item(i) for s in seqs))

    def m_enumerate(self, interp, args, kw):
        s = self.symbolic_iter(interp, args[0])
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        if s is None:
            return list(zip((start + i for i in range(10**9)), interp.iterate(args[0])))
        r = SSeq(s.length, lambda i: (i + start, s.item(i)))
        r.ghosts = getattr(s, 'ghosts', ())
        return r

    def m_list(self, interp, args, kw):
        if args and isinstance(args[0], SSeq):
            s = args[0].copy()
            s.pytype = list
            return s
        if args and isinstance(args[0], SArr):
            return args[0].tolist()
        return NotImplemented

    def m_sorted(self, interp, args, kw):
        if isinstance(args[0], SSeq):
            raise Unsupported('sorted of symbolic length')
        xs = list(interp.iterate(args[0]))
        if not deep_sym(xs):
            return sorted(xs, **kw)
        key = kw.get('key')
        out = []
        for x in xs:
            kx = interp.call(key, (x,)) if key else x
            j = 0
            while j < len(out) and not bool(sym_lt(kx, out[j][0])):
                j += 1
            out.insert(j, (kx, x))
        r = [x for _k, x in out]
        if kw.get('reverse'):
            raise Unsupported('sorted reverse')
        return r

    def m_set(self, interp, args, kw):
        if args:
            xs = list(interp.iterate(args[0]))
            if deep_sym(xs):
                return self.make_set(interp, xs)
            return set(xs)
        return NotImplemented

    def m_min(self, interp, args, kw):
        return self._ext(interp, args, kw, 'min')

    def m_max(self, interp, args, kw):
        return self._ext(interp, args, kw, 'max')

    def _ext(self, interp, args, kw, which):
        key = kw.get('key')
        if len(args) == 1:
            if isinstance(args[0], (SSeq, SArr)):
                s = self.symbolic_iter(interp, args[0])
                if s is not None:
                    return self.seq_ext(interp, s, key, which, kw)
            xs = list(interp.iterate(args[0]))
        else:
            xs = list(args)
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError(f'{which}() arg is an empty sequence')
        if not deep_sym(xs) and not isinstance(key, Sym) and key is None:
            return {'min': min, 'max': max}[which](xs)
        best, bk = xs[0], interp.call(key, (xs[0],)) if key else xs[0]
        for x in xs[1:]:
            k = interp.call(key, (x,)) if key else x
            c = sym_lt(k, bk) if which == 'min' else sym_lt(bk, k)
            if key is None and (isinstance(x, (SInt, SReal)) or isinstance(bk, (SInt, SReal))):
                best = bk = ite(c, x, best)
            elif c:
                best, bk = x, k
        return best

    def seq_ext(self, interp, s, key, which, kw):
        c = ctx()
        if not (s.length > 0):
            if 'default' in kw:
                return kw['default']
            raise ValueError(f'{which}() arg is an empty sequence')
        e = SInt.var(c.fresh_name('argext'))
        c.assume(e >= 0)
        c.assume(e < s.length)
        kf = (lambda i: interp.call(key, (s.item(i),))) if key else s.item
        ke = kf(e)
        for nd, g in c.state.get('ghosts', []):
            if nd == 1:
                g = g[0]
                inr = sand(g >= 0, g < s.length)
                kg = kf(g)
                f = mknot(sym_lt(kg, ke)) if which == 'min' else mknot(sym_lt(ke, kg))
                # first extremal element wins
                st = sor(mknot(g < e), sym_lt(ke, kg) if which == 'min' else sym_lt(kg, ke))
                from .core import simplies
                c.assume(simplies(inr, sand(f, st)))
        c.state['argext'] = e
        return s.item(e)

    def m_getattr(self, interp, args, kw):
        try:
            return interp.getattr(args[0], args[1])
        except AttributeError:
            if len(args) > 2:
                return args[2]
            raise

    def m_hasattr(self, interp, args, kw):
        try:
            interp.getattr(args[0], args[1])
            return True
        except AttributeError:
            return False

    def m_setattr(self, interp, args, kw):
        interp.setattr(*args)

    # -- streams (see membuf) ------------------------------------------------------------
    def init_stream(self, obj):
        raise Unsupported('stream object')

    def stream_method(self, interp, obj, name):
        raise Unsupported(f'stream method {name}')

    # -- numpy ---------------------------------------------------------------------------
    def np_models(self):
        A = SArr

        def when(f):
            def m(interp, args, kw):
                if not (deep_sym(args) or deep_sym(kw)):
                    return NotImplemented
                return f(*args, **kw)
            return m

        def arr_or(f, g):
            def h(a, *rest, **kw):
                if isinstance(a, A):
                    return f(a, *rest, **kw)
                return g(a, *rest, **kw)
            return h
        t = {
            np.arange: nparr.np_arange,
            np.zeros: lambda shape, dtype=float: nparr.np_zeros(shape, dtype),
            np.ones: lambda shape, dtype=float: nparr.np_zeros(shape, dtype, 1),
            np.full: lambda shape, v, dtype=None: nparr.np_zeros(
                shape, dtype or (float if isinstance(v, (float, SReal)) else np.int64), v),
            np.empty: lambda shape, dtype=float: SArr(
                shape, dtype, uninit(dtype)),
            np.zeros_like: lambda a, dtype=None: nparr.np_zeros(a.shape, dtype or a.dtype),
            np.ones_like: lambda a, dtype=None: nparr.np_zeros(a.shape, dtype or a.dtype, 1),
            np.where: nparr.np_where,
            np.roll: nparr.np_roll,
            np.cumsum: lambda a, **k: nparr.np_cumsum(a),
            np.diff: nparr.np_diff,
            np.flatnonzero: lambda a: nparr.np_where1(a)[0],
            np.nonzero: nparr.np_where1,
            np.abs: lambda a: abs(a),
            np.any: lambda a, **k: a.any(**k),
            np.all: lambda a, **k: a.all(**k),
            np.sum: lambda a, **k: a.sum(**k),
            np.max: lambda a, **k: a.max(**k),
            np.min: lambda a, **k: a.min(**k),
            np.maximum: nparr.np_maximum,
            np.minimum: nparr.np_minimum,
            np.round: np_round,
            np.around: np_round,
            np.concatenate: lambda xs, axis=0: nparr.np_concatenate(xs, axis),
            np.atleast_1d: lambda a: nparr.np_atleast_1d(a),
            np.rint: lambda a: nparr.np_elem(nparr.np_round_real, a),
            np.floor: lambda a: nparr.np_elem(
                lambda v: to_real(SInt.of(z3.ToInt(to_real(v).t))), a),
            np.logical_and: lambda a, b: ew_bool(operator.and_, a, b),
            np.logical_or: lambda a, b: ew_bool(operator.or_, a, b),
            np.logical_not: lambda a: ~a if isinstance(a, A) else mknot(a),
            np.multiply: lambda a, b: a * b,
            np.add: lambda a, b: a + b,
            np.subtract: lambda a, b: a - b,
            np.left_shift: lambda a, b: a << b,
            np.right_shift: lambda a, b: a >> b,
            np.bitwise_and: lambda a, b: a & b,
            np.bitwise_or: lambda a, b: a | b,
            np.array: lambda a, dtype=None, copy=True: (np_array if copy else np_asarray)(a, dtype),
            np.asarray: lambda a, dtype=None: np_asarray(a, dtype),
            np.ravel: lambda a: a.ravel(),
            np.reshape: lambda a, s: a.reshape(s),
            np.exp: lambda a: ufelem('exp', a),
            np.log: lambda a: ufelem('log', a),
            np.sqrt: lambda a: ufelem('sqrt', a),
            np.isscalar: lambda a: not isinstance(a, (A, SSeq)),
            np.isnan: np_isnan,
            np.take: lambda a, i, **k: nparr.arr_getitem(a, i),
        }
        for f, g in t.items():
            self.reg(f, when(g))
        # the dtype argument can be symbolic-free while shape is: handled by `when`
        for nm in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
                   'float32', 'float64'):
            ty = getattr(np, nm)

            def m(interp, args, kw, ty=ty):
                if not deep_sym(args):
                    return NotImplemented
                if isinstance(args[0], A):
                    return args[0].astype(ty)
                return nparr.wrap(args[0], np.dtype(ty))
            self.reg(ty, m)


def np_round(a, decimals=0):
    if is_sym(decimals):
        raise Unsupported('round with symbolic decimals')
    if decimals == 0:
        return nparr.np_elem(nparr.np_round_real, a)
    return nparr.np_elem(lambda v: v if isinstance(v, SInt) else round(to_real(v), decimals), a)


class Star:
    """*args of symbolic length in a call."""

    def __init__(self, seq):
        self.seq = seq


class SOpt(Sym):
    """A value that may be None (decided by forking)."""

    def __init__(self, cond_none, val):
        self.c = cond_none
        self.val = val

    def is_none(self):
        return mkbool(self.c)

    def __bool__(self):
        return not bool(self.is_none()) and bool(self.val)


class PadStr(Sym):
    def __init__(self, s, width):
        self.s = s
        self.width = width


class Opaque(Sym):
    def __init__(self, x):
        self.x = x


def sym_lt(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        r = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            e = val_eq(x, y)
            if e is True:
                continue
            lt = sym_lt(x, y)
            r = sor(lt, sand(e, r))
        return r
    return a < b


def uninit(dtype):
    c = ctx()
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        f = z3.Function(c.fresh_name('empty'), z3.IntSort(), z3.RealSort())
        return lambda *i: SReal(f(zint(i[0])))
    f = z3.Function(c.fresh_name('empty'), z3.IntSort(), z3.BitVecSort(dt.itemsize * 8))
    return lambda *i: SBV(f(zint(i[0])), dt.kind == 'i')


def zint(x):
    if isinstance(x, SInt):
        return x.t
    return z3.IntVal(int(x))


def ew_bool(op, a, b):
    def tob(x):
        if isinstance(x, SArr) and x.dtype.kind != 'b':
            return x != 0
        return x
    return op(tob(a), tob(b))


def np_array(a, dtype=None):
    r = nparr.as_sarr(a) if not isinstance(a, SArr) else a.copy()
    if dtype is not None and not (r.dtype == np.dtype(dtype)):
        return r.astype(dtype)
    if dtype is not None:
        return SArr(r.shape, dtype, r.snap())
    return r


def np_asarray(a, dtype=None):
    if isinstance(a, SArr) and (dtype is None or a.dtype == np.dtype(dtype)):
        return a
    return np_array(a, dtype)


def ufelem(name, a):
    if isinstance(a, SArr):
        return a.with_(float, lambda v: uf_fact(name, to_real(v)))
    return uf_fact(name, to_real(a))


def uf_fact(name, x):
    """exp / log / sqrt as uninterpreted functions with instances of their axioms."""
    from .core import uf_real, simplies
    c = ctx()
    r = uf_real(name, x)
    if name == 'exp':
        c.assume(r > 0)
    elif name == 'sqrt':
        c.assume(simplies(x >= 0, r >= 0))
    elif name == 'log':
        c.assume(simplies(x > 1, r > 0))
        c.assume(simplies(x == 1, r == 0))
        c.assume(simplies(sand(x > 0, x < 1), r < 0))
        seen = c.state.setdefault('logs', [])
        for y, s in seen:
            c.assume(simplies(sand(x > 0, y > 0, x < y), r < s))
            c.assume(simplies(sand(x > 0, y > 0, y < x), s < r))
        seen.append((x, r))
    return r


class SFloat(SReal):
    """Float that may be NaN: (nan flag, real value)."""

    __slots__ = ('nan',)

    def __init__(self, t, nan):
        self.t = t
        self.nan = nan


def np_isnan(a):
    def f(v):
        if isinstance(v, SFloat):
            return mkbool(v.nan)
        if isinstance(v, float):
            return v != v
        return False
    if isinstance(a, SArr):
        return a.with_(bool, f)
    return f(a)


def fmt_digits(x, width):
    """format(x, '0<width>d'): splits on the magnitude so that the digits have fixed width."""
    if not is_sym(x):
        return format(x, f'0{width}d')
    if x < 0:
        # sign takes one column
        return SFmt(['-', fmt_digits(-x, max(width - 1, 1))])
    w = width
    while True:
        if x < 10 ** w:
            return SFmt([Digits(x, w)])
        w += 1
        if w > 14:
            return SFmt([Num(x)])


def fmt_to_int(s):
    tot = 0
    neg = False
    for i, p in enumerate(s.parts):
        if isinstance(p, Digits):
            tot = tot * 10 ** p.width + p.term
        elif isinstance(p, Num) and len(s.parts) == 1:
            return p.term
        elif isinstance(p, Num):
            d = fmt_digits(p.term, 1).parts
            if len(d) != 1 or not isinstance(d[0], Digits):
                raise Unsupported(f'int() of {s}')
            tot = tot * 10 ** d[0].width + d[0].term
        elif isinstance(p, str) and p.isdigit():
            tot = tot * 10 ** len(p) + int(p)
        elif isinstance(p, str) and i == 0 and p == '-':
            neg = True
        elif isinstance(p, Opaque) and isinstance(p.x, SReal):
            raise ValueError('invalid literal for int()')     # the text of a float
        else:
            raise Unsupported(f'int() of {s}')
    return -tot if neg else tot


# --------------------------------------------------------------------------------------
# dates


def days_in_month(y, m):
    leap = sand(y % 4 == 0, sor(y % 100 != 0, y % 400 == 0))
    d = 31
    for mm in (4, 6, 9, 11):
        d = ite(m == mm, 30, d)
    return ite(m == 2, ite(leap, 29, 28), d)


class SDT(Sym):
    """datetime / date / time with symbolic fields."""

    def __init__(self, pytype, **f):
        self.pytype = pytype
        self.f = f

    @property
    def year(self):
        return self.f['year']

    @property
    def month(self):
        return self.f['month']

    @property
    def day(self):
        return self.f['day']

    @property
    def hour(self):
        return self.f['hour']

    @property
    def minute(self):
        return self.f['minute']

    @property
    def second(self):
        return self.f.get('second', 0)

    @property
    def microsecond(self):
        return 0

    def __bool__(self):
        return True

    def replace(self, **kw):
        if set(kw) <= {'tzinfo'} and kw.get('tzinfo') is None:
            return self     # no symbolic time has a zone
        if deep_sym(kw) or set(kw) - {'year', 'month', 'day', 'hour', 'minute', 'second',
                                      'tzinfo', 'microsecond'} or self.pytype is not _dt.time:
            raise Unsupported('replace of parts of a date')
        return SDT(self.pytype, **{**self.f, **{k: v for k, v in kw.items()
                                                if k not in ('tzinfo', 'microsecond')}})

    def date(self):
        return SDT(_dt.date, year=self.year, month=self.month, day=self.day)

    def time(self):
        return SDT(_dt.time, hour=self.hour, minute=self.minute, second=self.second)

    def strftime(self, fmt):
        if not isinstance(fmt, str):
            raise Unsupported('strftime format')
        parts = []
        i = 0
        while i < len(fmt):
            ch = fmt[i]
            if ch == '%':
                k = fmt[i + 1]
                i += 2
                if k == 'Y':
                    parts.append(Digits(self.year, 4))
                elif k == 'y':
                    parts.append(Digits(self.year % 100, 2))
                elif k == 'm':
                    parts.append(Digits(self.month, 2))
                elif k == 'd':
                    parts.append(Digits(self.day, 2))
                elif k == 'H':
                    parts.append(Digits(self.hour, 2))
                elif k == 'M':
                    parts.append(Digits(self.minute, 2))
                elif k == 'S':
                    parts.append(Digits(self.second, 2))
                else:
                    raise Unsupported(f'strftime %{k}')
            else:
                parts.append(ch)
                i += 1
        return SFmt(parts)

    def key(self):
        ks = [k for k in ('year', 'month', 'day', 'hour', 'minute', 'second')]
        return tuple(self.f.get(k, 0) for k in ks)

    def __eq__(self, o):
        if isinstance(o, SDT):
            if o.pytype is not self.pytype:
                return False
            return val_eq(self.key(), o.key())
        if isinstance(o, (_dt.datetime, _dt.date, _dt.time)):
            return val_eq(self.key(), dt_key(o))
        return False

    def __ne__(self, o):
        return mknot(self == o)

    def __lt__(self, o):
        return sym_lt(self.key(), o.key() if isinstance(o, SDT) else dt_key(o))

    def __gt__(self, o):
        return sym_lt(o.key() if isinstance(o, SDT) else dt_key(o), self.key())

    def __le__(self, o):
        return mknot(self > o)

    def __ge__(self, o):
        return mknot(self < o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'<SDT {self.f}>'


def dt_key(o):
    return tuple(getattr(o, k, 0) for k in ('year', 'month', 'day', 'hour', 'minute', 'second'))


def sym_datetime(prefix, ymin=1, ymax=9999, seconds=False):
    """An arbitrary valid datetime."""
    c = ctx()
    v = {k: SInt.var(c.fresh_name(f'{prefix}.{k}')) for k in
         ('year', 'month', 'day', 'hour', 'minute')}
    c.assume(sand(v['year'] >= ymin, v['year'] <= ymax, v['month'] >= 1, v['month'] <= 12,
                  v['day'] >= 1, v['hour'] >= 0, v['hour'] <= 23, v['minute'] >= 0,
                  v['minute'] <= 59))
    c.assume(v['day'] <= days_in_month(v['year'], v['month']))
    if seconds:
        v['second'] = SInt.var(c.fresh_name(f'{prefix}.second'))
        c.assume(sand(v['second'] >= 0, v['second'] <= 59))
    return SDT(_dt.datetime, **v)


def strptime(s, fmt):
    """datetime.strptime for digit strings (assumed contract of the library)."""
    digits = []
    for p in s.parts if isinstance(s, SFmt) else [s]:
        if isinstance(p, Digits):
            for k in range(p.width - 1, -1, -1):
                digits.append((p, k))
        elif isinstance(p, str):
            digits.extend(p)
        else:
            raise Unsupported('strptime of free text')
    f = {'year': 1900, 'month': 1, 'day': 1, 'hour': 0, 'minute': 0}
    pos = 0

    def take(n):
        nonlocal pos
        ds = digits[pos:pos + n]
        if len(ds) < n:
            raise ValueError('time data does not match format')
        pos += n
        tot = 0
        i = 0
        while i < n:
            d = ds[i]
            if isinstance(d, str):
                if not d.isdigit():
                    raise ValueError('time data does not match format')
                tot = tot * 10 + int(d)
                i += 1
                continue
            p, hi = d
            j = i
            while j + 1 < n and not isinstance(ds[j + 1], str) and ds[j + 1][0] is p:
                j += 1
            lo = ds[j][1]
            m = hi - lo + 1
            v = p.term // 10 ** lo
            if hi != p.width - 1:
                v = v % 10 ** m
            tot = tot * 10 ** m + v
            i = j + 1
        return tot
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch == '%':
            k = fmt[i + 1]
            i += 2
            if k == 'Y':
                f['year'] = take(4)
            elif k == 'y':
                y = take(2)
                f['year'] = ite(y <= 68, y + 2000, y + 1900)
            elif k == 'm':
                f['month'] = take(2)
                if not sand(f['month'] >= 1, f['month'] <= 12):
                    raise ValueError('time data does not match format')
            elif k == 'd':
                f['day'] = take(2)
                if not sand(f['day'] >= 1, f['day'] <= 31):
                    raise ValueError('time data does not match format')
            elif k == 'H':
                f['hour'] = take(2)
                if not (f['hour'] <= 23):
                    raise ValueError('time data does not match format')
            elif k == 'M':
                f['minute'] = take(2)
                if not (f['minute'] <= 59):
                    raise ValueError('time data does not match format')
            else:
                raise Unsupported(f'strptime %{k}')
        else:
            if pos >= len(digits) or digits[pos] != ch:
                raise ValueError('time data does not match format')
            pos += 1
            i += 1
    if pos != len(digits):
        raise ValueError('unconverted data remains')
    if not (f['day'] <= days_in_month(f['year'], f['month'])):
        raise ValueError('day is out of range for month')
    return SDT(_dt.datetime, **f)


class STD(Sym):
    """timedelta as whole minutes."""

    pytype = _dt.timedelta

    def __init__(self, minutes):
        self.minutes = minutes

    def __eq__(self, o):
        if isinstance(o, STD):
            return self.minutes == o.minutes
        if isinstance(o, _dt.timedelta):
            return self.minutes * 60 == o.total_seconds()
        return False

    __hash__ = Sym.__hash__
