"""numpy arrays of symbolic length, as index -> term closures (assumed contracts of numpy)."""
import operator

import numpy as np
import z3

from .core import (SBool, SBV, SInt, SReal, Sym, PathEnd, Unsupported, _is_int, ctx, is_sym, ite,
                   mkbool, mknot, sand, sor, to_real)

REALK = 'f'


def dt_of_scalar(v):
    if isinstance(v, (bool, SBool)) or type(v).__name__ == 'bool_':
        return np.dtype(bool)
    if isinstance(v, SBV):
        return np.dtype(f'{"i" if v.signed else "u"}{v.w // 8}')
    if isinstance(v, np.generic):
        return v.dtype
    return None  # weak python scalar


def wrap(v, dt):
    """Value stored in dtype dt."""
    k = dt.kind
    if k == 'b':
        if isinstance(v, (bool, SBool)):
            return v
        return v != 0
    if k in 'iu':
        w = dt.itemsize * 8
        if isinstance(v, SBV):
            return v.cast(w, k == 'i')
        if isinstance(v, SBool):
            return v.as_int()
        if isinstance(v, SReal):
            return real_to_int(v, dt)
        if isinstance(v, SInt):
            return wrap_int(v, w, k == 'i')
        if isinstance(v, float):
            v = int(v)
        v = int(v) & ((1 << w) - 1)
        if k == 'i' and v >> (w - 1):
            v -= 1 << w
        return v
    if k == 'f':
        if isinstance(v, SBV):
            r = bvval(v)
            return r
        if isinstance(v, (SInt, SBool)):
            return to_real(v)
        return v
    return v


def wrap_int(v, w, signed):
    """Integer stored in w bits (64-bit integers are taken as mathematical ones)."""
    if w >= 64:
        return v
    lo, hi = (-(1 << w - 1), 1 << w - 1) if signed else (0, 1 << w)
    c = ctx()
    key = ('wrap', v.t.get_id(), w, signed)
    memo = c.state.setdefault('wraps', {})
    if key not in memo:
        memo[key] = (bool(sand(v >= lo, v < hi)), v)
    return v if memo[key][0] else (v - lo) % (1 << w) + lo


def f2i(v):
    f = z3.Function('f2i32', z3.RealSort(), z3.BitVecSort(32))
    return f(v.t)


def bvval_fn(w, signed):
    return z3.Function(f'bvval{w}{"s" if signed else "u"}', z3.BitVecSort(w), z3.RealSort())


def bvval(b):
    """The numeric value of a machine word, as a real."""
    if z3.is_bv_value(b.t):
        n = b.t.as_signed_long() if b.signed else b.t.as_long()
        return SReal(z3.RealVal(n))
    if b.w == 64 and not b.signed:
        return SReal(bvval_fn(64, False)(b.t))
    if b.w > 64:
        raise Unsupported('value of a machine word wider than 64 bits')
    return SReal(bvval_fn(64, True)(b.cast(64, True).t))


def real_to_int(v, dt):
    """numpy astype(int) of a float: exact when the value is integral and in range."""
    w = dt.itemsize * 8
    if w == 32:
        b = f2i(v)
        c = ctx()
        inr = z3.And(v.t >= -2**31, v.t < 2**31, z3.ToReal(z3.ToInt(v.t)) == v.t)
        c.assume(z3.Implies(inr, bvval(SBV(b, True)).t == v.t))
        reg = c.state.setdefault('f2i', {})
        reg[b.get_id()] = (b, v)
        return SBV(b, True)
    return v.trunc()


def norm_shape(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def same(a, b):
    r = a == b
    return r is True or (isinstance(r, SBool) and False)


class SArr(Sym):
    """Array: shape of int/SInt, element closure over the index tuple."""

    flat = None  # for 2-d arrays given by their row-major flat getter
    group = None  # arrays that share memory with this one (reshape, ravel, view)
    stale = False  # shared memory was written through another of the group
    touched = False

    def __init__(self, shape, dtype, get, base=None, back=None, flat=None):
        self.flat = flat
        self.shape = norm_shape(shape)
        self.dtype = np.dtype(dtype)
        self.get = get
        self.base = base      # array this one is a view of
        self.back = back      # index map from view index to base index

    # -- basic -----------------------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = s * n
        return n

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def owner(self):
        return self if self.base is None else self.base.owner()

    def link(self, r):
        """r, which shares its memory with this array."""
        a = self.owner()
        if a.group is None:
            a.group = [a]
        a.group.append(r)
        r.group = a.group
        return r

    def wrote(self):
        """The memory of this array is written: others that share it are out of date."""
        self.touched = True
        for y in self.group or ():
            y.touched = True
            if y is not self:
                y.stale = True

    def fresh(self):
        if self.stale:
            raise Unsupported('read of an array written through another that shares its memory')

    def at(self, *idx):
        if self.base is not None:
            return self.base.at(*self.back(*idx))
        self.fresh()
        return self.get(*idx)

    def snap(self):
        """Getter of the current contents."""
        self.fresh()
        if self.base is not None:
            g = self.base.snap()
            b = self.back
            return lambda *idx: g(*b(*idx))
        return self.get

    def __len__(self):
        n = self.shape[0]
        if is_sym(n):
            raise Unsupported('len() of a symbolic array must be modelled')
        return n

    def __bool__(self):
        if all(not is_sym(s) for s in self.shape) and int(np.prod(self.shape)) == 1:
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError('truth value of an array is ambiguous')

    def with_(self, dtype, fn):
        g = self.snap()
        fl = self.flat
        return SArr(self.shape, dtype, lambda *i: fn(g(*i)),
                    flat=(lambda i: fn(fl(i))) if fl else None)

    def astype(self, dt, copy=True):
        dt = np.dtype(dt)
        if copy is False and dt == self.dtype:
            return self
        return self.with_(dt, lambda v: wrap(v, dt))

    def copy(self):
        return SArr(self.shape, self.dtype, self.snap(), flat=self.flat)

    __copy__ = copy

    def view(self, dt):
        dt = np.dtype(dt)
        if dt.itemsize != self.dtype.itemsize or dt.kind not in 'iu':
            raise Unsupported('view with another item size')
        g = self.snap()

        def get(*i):
            v = g(*i)
            if isinstance(v, SInt):
                raise Unsupported('view of mathematical integer')
            return wrap(v, dt)
        return self.link(SArr(self.shape, dt, get))

    def ravel(self, order='C'):
        if self.ndim == 1:
            return self.link(self.copy())
        return self.reshape(-1)

    def flatten(self, order='C'):
        return self.copy() if self.ndim == 1 else self.copy().reshape(-1)

    def reshape(self, *shape):
        return self.link(self._reshape(*shape))

    def _reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        g = self.snap()
        if self.ndim == 2 and len(shape) == 1:
            ny, nx = self.shape
            if self.flat is not None:
                return SArr((ny * nx,), self.dtype, self.flat)
            flat = ctx().state.get('flat2')  # (nx expr -> row/col split hints)

            def get(i):
                if callable(flat):
                    r = flat(i, nx)
                    if r is not None:
                        return g(*r)
                return g(i // nx, i % nx)
            return SArr((ny * nx,), self.dtype, get)
        if self.ndim == 1 and len(shape) == 2:
            ny, nx = shape
            return SArr((ny, nx), self.dtype, lambda j, i: g(j * nx + i))
        if self.ndim == len(shape):
            return SArr(shape, self.dtype, g)
        raise Unsupported('reshape')

    def item(self):
        return self.at(*([0] * self.ndim))

    # -- elementwise -----------------------------------------------------------------
    def _ew(self, o, op, rev=False, kind=None):
        if not isinstance(o, SArr) and isinstance(o, (list, tuple, np.ndarray)) and not (
                isinstance(o, np.ndarray) and o.ndim == 0):
            o = as_sarr(o)
        return ewise(op, *((o, self) if rev else (self, o)), kind=kind)

    def __add__(self, o):
        return self._ew(o, operator.add)

    def __radd__(self, o):
        return self._ew(o, operator.add, True)

    def __sub__(self, o):
        return self._ew(o, operator.sub)

    def __rsub__(self, o):
        return self._ew(o, operator.sub, True)

    def __mul__(self, o):
        return self._ew(o, operator.mul)

    def __rmul__(self, o):
        return self._ew(o, operator.mul, True)

    def __truediv__(self, o):
        return self._ew(o, operator.truediv, kind='f')

    def __rtruediv__(self, o):
        return self._ew(o, operator.truediv, True, kind='f')

    def __floordiv__(self, o):
        return self._ew(o, operator.floordiv)

    def __rfloordiv__(self, o):
        return self._ew(o, operator.floordiv, True)

    def __mod__(self, o):
        return self._ew(o, operator.mod)

    def __rmod__(self, o):
        return self._ew(o, operator.mod, True)

    def __pow__(self, o):
        return self._ew(o, operator.pow)

    def __rpow__(self, o):
        return self._ew(o, operator.pow, True)

    def __and__(self, o):
        return self._ew(o, operator.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._ew(o, operator.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._ew(o, operator.xor)

    def __lshift__(self, o):
        return self._ew(o, operator.lshift)

    def __rlshift__(self, o):
        return self._ew(o, operator.lshift, True)

    def __rshift__(self, o):
        return self._ew(o, operator.rshift)

    def __rrshift__(self, o):
        return self._ew(o, operator.rshift, True)

    def _cmp(self, o, op):
        return self._ew(o, op, kind='b')

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    __hash__ = Sym.__hash__

    def __neg__(self):
        return self.with_(self.dtype, lambda v: wrap(-v, self.dtype))

    def __abs__(self):
        return self.with_(self.dtype, lambda v: abs(v))

    def __invert__(self):
        if self.dtype.kind == 'b':
            return self.with_(self.dtype, mknot)
        return self.with_(self.dtype, lambda v: wrap(~v, self.dtype))

    def _inpl(self, o, op):
        r = op(self.copy(), o)
        g = r.snap()
        dt = self.dtype
        if not np.can_cast(r.dtype, dt, 'same_kind'):
            raise TypeError(f'Cannot cast ufunc output from {r.dtype} to {dt}')
        fl = r.flat
        self.store_all(lambda *i: wrap(g(*i), dt),
                       fl and (lambda i: wrap(fl(i), dt)))
        return self

    def __iadd__(self, o):
        return self._inpl(o, operator.add)

    def __isub__(self, o):
        return self._inpl(o, operator.sub)

    def __imul__(self, o):
        return self._inpl(o, operator.mul)

    def __iand__(self, o):
        return self._inpl(o, operator.and_)

    def __ior__(self, o):
        return self._inpl(o, operator.or_)

    def __itruediv__(self, o):
        return self._inpl(o, operator.truediv)

    def __ifloordiv__(self, o):
        return self._inpl(o, operator.floordiv)

    def __imod__(self, o):
        return self._inpl(o, operator.mod)

    def __ipow__(self, o):
        return self._inpl(o, operator.pow)

    def __ixor__(self, o):
        return self._inpl(o, operator.xor)

    def __ilshift__(self, o):
        return self._inpl(o, operator.lshift)

    def __irshift__(self, o):
        return self._inpl(o, operator.rshift)

    # -- stores ----------------------------------------------------------------------
    def store_all(self, get, flat=None):
        if self.base is not None:
            raise Unsupported('whole-array store through a view')
        if self.flat is not None and flat is None:
            raise Unsupported('store into a flat-backed array')
        self.wrote()
        self.get = get
        if self.flat is not None:
            self.flat = flat

    def store(self, cond, val):
        """Conditional update: elements where cond(*idx) become val(*idx)."""
        if self.flat is not None:
            raise Unsupported('store into a flat-backed array')
        self.wrote()
        if self.base is not None:
            raise Unsupported('store through a view of unknown shape')
        old = self.get
        dt = self.dtype

        def compute(*i):
            c = cond(*i)
            if c is True:
                return wrap(val(*i), dt)
            if c is False:
                return old(*i)
            nv, ov = wrap(val(*i), dt), old(*i)
            if dt.kind in 'iu' and not isinstance(nv, SBV) and not isinstance(ov, SBV):
                return nv if SBool(c.t) else ov
            return ite(c, nv, ov)
        memo = {}

        def get(*i):
            key = tuple((tuple(sorted(x.lin.items())), x.c) if isinstance(x, SInt) else x
                        if type(x) is int else id(x) for x in i)
            r = memo.get(key)
            if r is None:
                r = memo[key] = (compute(*i), i)
            return r[0]
        self.get = get

    # -- reductions ------------------------------------------------------------------
    def any(self, axis=None):
        return reduce_bool(self, True)

    def all(self, axis=None):
        return reduce_bool(self, False)

    def sum(self, axis=None, dtype=None):
        if axis is None and self.ndim == 1 and not is_sym(self.shape[0]):
            axis = 0
        if axis is None:
            raise Unsupported('sum over a symbolic axis')
        axis = axis % self.ndim
        n = self.shape[axis]
        if is_sym(n):
            raise Unsupported('sum over a symbolic axis')
        g = self.snap()
        dt = self.dtype
        if dt.kind == 'b':
            rdt = np.dtype(int)
        elif dt.kind == 'i':
            rdt = np.dtype(np.int64)
        elif dt.kind == 'u':
            rdt = np.dtype(np.uint64)
        else:
            rdt = dt

        def get(*i):
            tot = 0
            for k in range(n):
                idx = i[:axis] + (k,) + i[axis:]
                v = g(*idx)
                if isinstance(v, SBool):
                    v = v.as_int()
                elif isinstance(v, bool):
                    v = int(v)
                v = wrap(v, rdt)
                tot = v if (not is_sym(tot) and tot == 0) else wrap(addv(tot, v, rdt), rdt)
            return tot
        sh = self.shape[:axis] + self.shape[axis + 1:]
        if not sh:
            return get()
        return SArr(sh, rdt, get)

    def min(self, axis=None):
        return extremum(self, 'min')

    def max(self, axis=None):
        return extremum(self, 'max')

    def nonzero(self):
        return np_where1(self)

    def cumsum(self):
        return np_cumsum(self)

    def tolist(self):
        if self.ndim != 1:
            raise Unsupported('tolist of 2-d')
        from .models import SSeq
        g = self.snap()
        if not is_sym(self.shape[0]):
            return [g(i) for i in range(self.shape[0])]
        return SSeq(self.shape[0], g)

    def __repr__(self):
        return f'<SArr {self.shape} {self.dtype}>'


def addv(a, b, dt):
    if isinstance(a, SBV) and not isinstance(b, SBV):
        b = SBV(z3.BitVecVal(int(b), a.w), a.signed)
    if isinstance(b, SBV) and not isinstance(a, SBV):
        a = SBV(z3.BitVecVal(int(a), b.w), b.signed)
    return a + b


def as_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 1:
            return SArr(x.shape, x.dtype, lambda i: index_concrete(x, i))
        if x.ndim == 2:
            return SArr(x.shape, x.dtype, lambda j, i: x[conc(j), conc(i)].item())
        raise Unsupported('ndim')
    if isinstance(x, (list, tuple)):
        from .models import SSeq
        if all(not isinstance(v, (list, tuple)) for v in x):
            dts = [dt_of_scalar(v) for v in x]
            if any(isinstance(v, (float, SReal)) for v in x):
                dt = np.dtype(float)
            elif any(isinstance(v, SBV) for v in x):
                dt = np.dtype(np.int64)
            elif all(d == np.dtype(bool) for d in dts) and dts:
                dt = np.dtype(bool)
            else:
                dt = np.dtype(np.int64) if x else np.dtype(float)
            xs = list(x)
            return SArr((len(xs),), dt, lambda i: index_concrete(xs, i))
    from .models import SSeq
    if isinstance(x, SSeq):
        return SArr((x.length,), np.dtype(float), x.item)
    raise Unsupported(f'array from {type(x)}')


def conc(i):
    if is_sym(i):
        return i.__index__()
    return int(i)


def index_concrete(xs, i):
    """Element of a concrete list at a possibly symbolic index."""
    if not is_sym(i):
        v = xs[i]
        return v.item() if isinstance(v, np.generic) else v
    n = len(xs)
    r = xs[n - 1]
    r = r.item() if isinstance(r, np.generic) else r
    for k in range(n - 2, -1, -1):
        v = xs[k]
        v = v.item() if isinstance(v, np.generic) else v
        r = ite(i == k, v, r)
    return r


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        dims = [s[len(s) - nd + d] for s in shapes if len(s) - nd + d >= 0]
        cand = [x for x in dims if is_sym(x) or x != 1]
        if not cand:
            out.append(1)
            continue
        r = cand[0]
        for x in cand[1:]:
            if x is r:
                continue
            e = (x == r)
            if e is True:
                continue
            if e is False:
                raise ValueError('operands could not be broadcast together')
            if ctx().branch(e.t):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(r)
    return tuple(out)


def bidx(shape, out_nd, idx):
    """Index into an operand of the given shape for a broadcast index."""
    k = out_nd - len(shape)
    r = []
    for d, s in enumerate(shape):
        r.append(0 if (not is_sym(s) and s == 1) else idx[k + d])
    return tuple(r)


def result_dtype(op, operands, kind=None):
    if kind == 'b':
        return np.dtype(bool)
    args = []
    for o in operands:
        if isinstance(o, SArr):
            args.append(o.dtype)
        else:
            d = dt_of_scalar(o)
            if d is not None:
                args.append(d)
            elif isinstance(o, (float, SReal)):
                args.append(0.0)
            else:
                args.append(0)
    if all(not isinstance(a, np.dtype) for a in args):
        rt = np.result_type(*[np.asarray(a).dtype for a in args])
    else:
        rt = np.result_type(*args)
    if kind == 'f' and rt.kind != 'f':
        return np.dtype(float)
    if rt.kind == 'b' and op in (operator.add, operator.mul):
        return rt
    return rt


def apply_op(op, a, b, dt):
    """Elementwise op with both operands first converted to the common dtype."""
    if dt.kind == 'b' and op in (operator.eq, operator.ne, operator.lt, operator.le,
                                 operator.gt, operator.ge):
        if isinstance(a, SBV) and isinstance(b, (float, SReal)):
            a = bvval(a)
        if isinstance(b, SBV) and isinstance(a, (float, SReal)):
            b = bvval(b)
        return op(a, b)
    if dt.kind == 'b':
        if op in (operator.and_, operator.mul):
            return sand(a, b) if is_sym(a) or is_sym(b) else (bool(a) and bool(b))
        if op in (operator.or_, operator.add):
            return sor(a, b) if is_sym(a) or is_sym(b) else (bool(a) or bool(b))
        if op is operator.xor:
            return mknot(a == b)
        raise Unsupported('bool array op')
    a, b = wrap(a, dt), wrap(b, dt)
    if dt.kind in 'iu' and op in (operator.lshift, operator.rshift):
        w = dt.itemsize * 8
        if isinstance(b, SBV):
            raise Unsupported('symbolic shift amount')
        if isinstance(b, SInt):
            v = b.concrete()
            if v is None:
                raise Unsupported('symbolic shift amount')
            b = v
        if b < 0 or b >= w:
            # numpy: shifts by >= width give 0 (or the sign); negative amounts are undefined
            if b < 0:
                return SBV(z3.BitVec(ctx().fresh_name('undef_shift'), w), dt.kind == 'i')
            if op is operator.lshift:
                return 0
            if isinstance(a, SBV) and a.signed:
                return SBV(z3.simplify(a.t >> (w - 1)), True)
            return 0
        if isinstance(a, SInt):
            if op is operator.lshift:
                raise Unsupported('shift of a mathematical integer')
            return a // (1 << b)
        return wrap(op(a, b), dt)
    if dt.kind in 'iu' and op in (operator.floordiv, operator.mod) and not is_sym(b) and b == 0:
        return 0
    if isinstance(a, SBV) and isinstance(b, int) and op in (
            operator.and_, operator.or_, operator.xor, operator.add, operator.sub):
        return wrap(op(a, SBV(z3.BitVecVal(b, a.w), a.signed)), dt)
    if isinstance(b, SBV) and isinstance(a, int):
        return wrap(op(SBV(z3.BitVecVal(a, b.w), b.signed), b), dt)
    if isinstance(a, SBV) != isinstance(b, SBV):
        raise Unsupported('machine word mixed with a mathematical integer')
    if dt.kind == 'f' and op in (operator.truediv,):
        if not is_sym(b) and b == 0:
            raise Unsupported('float division by zero')
    if isinstance(a, SBV) and isinstance(b, SBV) and op is operator.mul:
        return SBV(z3.simplify(a.t * b.t), dt.kind == 'i')
    r = op(a, b)
    return wrap(r, dt)


def ewise(op, a, b, kind=None):
    dt = result_dtype(op, (a, b), kind)
    sh = bshape([x.shape if isinstance(x, SArr) else () for x in (a, b)])
    nd = len(sh)

    def getter(x):
        if isinstance(x, SArr):
            g, s = x.snap(), x.shape
            return lambda idx: g(*bidx(s, nd, idx))
        if isinstance(x, np.generic):
            x = x.item()
        return lambda idx: x
    ga, gb = getter(a), getter(b)

    def get(*idx):
        return apply_op(op, ga(idx), gb(idx), dt)
    fl = flat_of((a, b))
    return SArr(sh, dt, get, flat=(
        lambda i: apply_op(op, *[f(i) for f in fl], dt)) if fl else None)


def flat_of(ops):
    """Flat getters of the operands when all arrays are flat-backed and of one shape."""
    arrs = [x for x in ops if isinstance(x, SArr)]
    for x in arrs:
        x.fresh()
    if not arrs or any(x.flat is None for x in arrs):
        return None
    if any(x.shape is not arrs[0].shape and not all(
            p is q or (not is_sym(p) and p == q) for p, q in zip(x.shape, arrs[0].shape))
            for x in arrs):
        return None
    return [x.flat if isinstance(x, SArr) else (lambda i, x=x: x) for x in ops]


def simplies_(a, b):
    from .core import simplies
    return simplies(a, b)


# ------------------------------------------------------------------------------------
# reductions with ghost instances


def ghosts(arr):
    """Ghost indices registered by the contract for arrays of this length."""
    out = []
    for nd, idx in ctx().state.get('ghosts', []):
        if nd == arr.ndim:
            out.append(idx)
    return out


def as_flat(arr):
    if arr.ndim == 2 and arr.flat is not None:
        arr.fresh()
        return SArr((arr.size,), arr.dtype, arr.flat)
    return arr


def reduce_bool(arr, is_any):
    arr = as_flat(arr)
    if all(not is_sym(s) for s in arr.shape):
        n = 1
        for s in arr.shape:
            n *= s
        if n <= 4096:
            import itertools
            vals = [arr.at(*i) for i in itertools.product(*[range(s) for s in arr.shape])]
            return (sor if is_any else sand)(*vals) if vals else (not is_any)
    c = ctx()
    g = arr.snap()
    b = SBool(z3.Bool(c.fresh_name('any' if is_any else 'all')))
    d = bool(b)
    if d != is_any:
        # any() is False / all() is True: a universal fact, instantiated at the ghosts
        for idx in ghosts(arr):
            inr = sand(*[sand(mkcmp(i, '>=', 0), mkcmp(i, '<', n))
                         for i, n in zip(idx, arr.shape)])
            if inr is False:
                continue
            v = g(*idx)
            v = mknot(v) if is_any else v
            if v is True:
                continue
            from .core import simplies
            c.assume(simplies(inr, v))
        c.state.setdefault('universals', []).append((arr.shape, g, not is_any))
    else:
        # there is a witness
        idx = []
        for n in arr.shape:
            e = SInt.var(c.fresh_name('wit'))
            c.assume(e >= 0)
            c.assume(e < n)
            idx.append(e)
        hook = c.state.get('witness_split')
        if hook is not None:
            idx = hook(idx, arr)
        if idx is not None:
            v = g(*idx)
            if not is_any:
                v = mknot(v)
            if v is False:
                raise PathEnd
            if v is not True:
                c.assume(v)
            c.state.setdefault('witnesses', []).append((arr, idx))
    return d


def mkcmp(a, op, b):
    return {'>=': operator.ge, '<': operator.lt}[op](a, b)


class SMasked(Sym):
    """arr[mask] kept as a pair: only order-independent uses are supported."""

    def __init__(self, arr, mask):
        self.arr, self.mask = as_flat(arr), as_flat(mask)
        self.dtype = arr.dtype

    def min(self):
        return extremum(self.arr, 'min', self.mask)

    def max(self):
        return extremum(self.arr, 'max', self.mask)


def extremum(arr, which, mask=None):
    c = ctx()
    arr = as_flat(arr)
    gm = mask.snap() if mask is not None else (lambda *i: True)
    dims = arr.shape
    if all(not is_sym(s) for s in dims):
        import itertools
        vals = [arr.at(*i) for i in itertools.product(*[range(s) for s in dims])]
        if not vals:
            raise ValueError(f'zero-size array to reduction operation {which}')
        r = vals[0]
        for v in vals[1:]:
            r = ite(v < r if which == 'min' else v > r, v, r)
        return r
    for n in dims:
        if is_sym(n):
            if mkbool((n < 1).t) if is_sym(n < 1) else (n < 1):
                raise ValueError(f'zero-size array to reduction operation {which}imum '
                                 'which has no identity')
    g = arr.snap()
    # attained
    idx = []
    for n in dims:
        e = SInt.var(c.fresh_name('ext'))
        c.assume(e >= 0)
        c.assume(e < n)
        idx.append(e)
    hook = c.state.get('ext_split')
    if hook is not None:
        idx = hook(idx, arr)
    mk = gm(*idx)
    if mask is not None:
        # an empty selection has no extremum
        e = c.choose(['nonempty', 'empty'])
        if e == 'empty':
            for gi in ghosts(arr):
                inr = sand(*[sand(i >= 0, i < n) for i, n in zip(gi, dims)])
                c.assume(simplies_(inr, mknot(gm(*gi))))
            for a2, wi in c.state.get('witnesses', []):
                if a2.ndim == len(dims) and wi is not None:
                    inr = sand(*[sand(i >= 0, i < n) for i, n in zip(wi, dims)])
                    c.assume(simplies_(inr, mknot(gm(*wi))))
            if c.check() == z3.unsat:
                raise PathEnd
            raise ValueError(f'zero-size array to reduction operation {which}imum')
        c.assume(mk)
    m = g(*idx)
    if arr.dtype.kind == 'f' and is_sym(m):
        nm = SReal.var(c.fresh_name(which))
        c.assume(nm == m)
        m = nm
    elif isinstance(m, SInt):
        nm = SInt.var(c.fresh_name(which))
        c.assume(nm == m)
        m = nm
    from .core import simplies
    for gi in ghosts(arr):
        inr = sand(*[sand(i >= 0, i < n) for i, n in zip(gi, dims)])
        if mask is not None:
            inr = sand(inr, gm(*gi))
        if inr is False:
            continue
        v = g(*gi)
        f = (m <= v) if which == 'min' else (m >= v)
        if f is False and inr is True:
            raise PathEnd
        c.assume(simplies(inr, f))
    # the other extremum of the same selection (it is attained, so it is comparable)
    mg = gm if mask is not None else None
    for g2, k2, w2, m2 in c.state.setdefault('extrema', []):
        if g2 is g and k2 is mg and w2 != which:
            f = (m <= m2) if which == 'min' else (m >= m2)
            if f is False:
                raise PathEnd
            if f is not True:
                c.assume(f)
    c.state['extrema'].append((g, mg, which, m))
    return m


# ------------------------------------------------------------------------------------
# indexing


def norm_slice(s, n):
    """(start, stop, step, length) of a slice over length n."""
    step = 1 if s.step is None else s.step
    if is_sym(step):
        raise Unsupported('symbolic slice step')
    if step == -1:
        if s.start is None and s.stop is None:
            return n - 1, -1, -1, n
        raise Unsupported('negative slice')
    if step < 0:
        raise Unsupported('negative slice step')

    def clip(x):
        if not is_sym(x) and not is_sym(n):
            x = int(x)
            if x < 0:
                x = max(0, x + n)
            return min(x, n)
        if not is_sym(x) and int(x) < 0:
            x = n + int(x)
            if x < 0:
                return 0
            return x
        if not is_sym(x) and x == 0:
            return 0
        if same(x, n):
            return x
        if x < 0:
            x = x + n
            if x < 0:
                x = 0
        if x > n:
            return n
        return x
    a = 0 if s.start is None else clip(s.start)
    b = n if s.stop is None else clip(s.stop)
    d = b - a
    if is_sym(d):
        if d < 0:
            ln = 0
        else:
            ln = (d + (step - 1)) // step
    else:
        ln = max(0, -(-d // step))
    return a, b, step, ln


def fix_index(i, n):
    """Python index to nonnegative index (IndexError outside)."""
    if isinstance(i, np.generic):
        i = i.item()
    if not is_sym(i) and not is_sym(n):
        i = int(i)
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise IndexError('index out of bounds')
        return i
    if not is_sym(i):
        i = int(i)
        if i < 0:
            i = i + n
    elif i < 0:
        i = i + n
    ok = sand(i >= 0, i < n)
    if not (ok if isinstance(ok, bool) else bool(ok)):
        raise IndexError('index out of bounds')
    return i


def arr_getitem(arr, k):
    if not isinstance(k, tuple):
        k = (k,)
    if any(x is Ellipsis for x in k):
        if len(k) == 1:
            return arr
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        nreal = sum(1 for x in k if x is not Ellipsis and x is not None)
        k = k[:p] + (slice(None),) * (arr.ndim - nreal) + k[p + 1:]
    if any(x is None for x in k):
        raise Unsupported('newaxis')
    if len(k) == 1 and isinstance(k[0], SArr) and k[0].dtype.kind == 'b' and arr.ndim > 1:
        if k[0].ndim != arr.ndim:
            raise Unsupported('mask of another rank')
        return mask_select(arr, k[0])
    k = k + (slice(None),) * (arr.ndim - len(k))
    if len(k) > arr.ndim:
        raise IndexError('too many indices for array')
    if len(k) == 1 and (isinstance(k[0], SArr) or isinstance(k[0], (list, np.ndarray))):
        ix = as_sarr(k[0])
        if ix.dtype.kind == 'b':
            return mask_select(arr, ix)
        if arr.ndim != 1:
            raise Unsupported('fancy index of a 2-d array')
        g, gi, n = arr.snap(), ix.snap(), arr.shape[0]

        def get(*i):
            j = gi(*i)
            if isinstance(j, SBV):
                raise Unsupported('index by machine word')
            if not is_sym(j) and j < 0:
                return g(n + j)
            if is_sym(j) and j < 0:
                return g(j + n)
            chk = ctx().state.get('index_check')
            if chk:
                chk(arr, j, n)
            return g(j)
        return SArr(ix.shape, arr.dtype, get)
    plan = []
    shape = []
    for x, n in zip(k, arr.shape):
        if isinstance(x, slice):
            a, _b, st, ln = norm_slice(x, n)
            plan.append(('s', a, st))
            shape.append(ln)
        elif _is_int(x) or isinstance(x, SInt):
            plan.append(('i', fix_index(x, n), None))
        else:
            raise Unsupported(f'index {type(x).__name__}')

    def back(*idx):
        out = []
        j = 0
        for kind, a, st in plan:
            if kind == 'i':
                out.append(a)
            else:
                out.append(a + idx[j] * st if st != 1 else idx[j] + a)
                j += 1
        return tuple(out)
    if not shape:
        return arr.at(*back())
    return SArr(tuple(shape), arr.dtype, None, base=arr, back=back)


def mask_select(arr, mask):
    """arr[mask]: the elements at the true positions, in order."""
    hint = ctx().state.get('where_hint')
    if hint is None or not getattr(hint, 'accepts', lambda m: True)(mask) or \
            arr.dtype.kind == 'f':
        return SMasked(arr, mask)
    idx = np_where1(mask)[0]
    g, gi = arr.snap(), idx.snap()
    return SArr(idx.shape, arr.dtype, lambda i: g(gi(i)))


def arr_setitem(arr, k, v):
    if isinstance(v, (list, tuple)) or type(v).__name__ == 'SSeq':
        v = as_sarr(v)
    if isinstance(v, np.ndarray):
        v = v.item() if v.ndim == 0 else as_sarr(v)
    if isinstance(v, np.generic):
        v = v.item()
    if arr.base is not None:
        # store through a view: translate for unit-step slices
        if k is Ellipsis or isinstance(k, slice):
            raise Unsupported('store through view')
        if not isinstance(k, tuple):
            k = (k,)
        if all(_is_int(x) or isinstance(x, SInt) for x in k) and len(k) == arr.ndim:
            k = tuple(fix_index(x, n) for x, n in zip(k, arr.shape))
            b = arr.back(*k)
            arr_setitem(arr.base, b if len(b) > 1 else b[0], v)
            return
        raise Unsupported('store through view')
    if not isinstance(k, tuple):
        k = (k,)
    if len(k) == 1 and k[0] is Ellipsis:
        if isinstance(v, SArr):
            sh = bshape([arr.shape, v.shape])
            g = v.snap()
            s = v.shape
            nd = arr.ndim
            arr.store(lambda *i: True, lambda *i: g(*bidx(s, nd, i)))
        else:
            arr.store(lambda *i: True, lambda *i: v)
        return
    if len(k) == 1 and isinstance(k[0], SArr) and k[0].dtype.kind == 'b':
        m = k[0]
        bshape([arr.shape[:m.ndim], m.shape])
        gm = m.snap()
        nd = m.ndim
        if isinstance(v, SArr):
            raise Unsupported('masked store of an array')
        arr.store(lambda *i: gm(*i[:nd]), lambda *i: v)
        return
    k = k + (slice(None),) * (arr.ndim - len(k))
    conds = []
    maps = []
    for d, (x, n) in enumerate(zip(k, arr.shape)):
        if isinstance(x, slice):
            if x == slice(None):
                conds.append(lambda i: True)
                maps.append(lambda i: i)
            else:
                a, b, st, _ln = norm_slice(x, n)
                if st == 1:
                    conds.append(lambda i, a=a, b=b: sand(i >= a, i < b))
                    maps.append(lambda i, a=a: i - a)
                else:
                    conds.append(lambda i, a=a, b=b, st=st: sand(
                        i >= a, i < b, (i - a) % st == 0))
                    maps.append(lambda i, a=a, st=st: (i - a) // st)
        elif isinstance(x, SArr) and x.dtype.kind == 'b':
            gm = x.snap()
            conds.append(lambda i, gm=gm: gm(i))
            maps.append(None)
        elif _is_int(x) or isinstance(x, SInt):
            xi = fix_index(x, n)
            conds.append(lambda i, xi=xi: i == xi)
            maps.append('drop')
        else:
            raise Unsupported(f'store index {type(x).__name__}')

    def cond(*idx):
        cs = []
        for c, i in zip(conds, idx):
            r = c(i)
            if r is False:
                return False
            cs.append(r)
        return sand(*cs)
    if isinstance(v, SArr):
        g, s = v.snap(), v.shape
        kept = [m for m in maps if m != 'drop']
        if any(m is None for m in kept):
            raise Unsupported('masked store of an array')
        nd = len(kept)

        def val(*idx):
            sub = tuple(m(i) for m, i in zip(maps, idx) if m != 'drop')
            return g(*bidx(s, nd, sub))
        tgt = []
        for x, n in zip(k, arr.shape):
            if isinstance(x, slice):
                tgt.append(norm_slice(x, n)[3])
        bshape([tuple(tgt), s])
    else:
        def val(*idx):
            return v
    arr.store(cond, val)


# ------------------------------------------------------------------------------------
# numpy functions


def np_arange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    n = hi - lo
    if st != 1:
        raise Unsupported('arange step')
    return SArr((n,), np.int64, lambda i: i + lo)


def np_zeros(shape, dtype=float, fill=0):
    dt = np.dtype(dtype)
    z = wrap(fill, dt) if dt.kind != 'f' else (float(fill) if not is_sym(fill) else fill)
    return SArr(shape, dt, lambda *i: z)


def np_where(*args):
    if len(args) == 1:
        return np_where1(args[0])
    c, a, b = args
    ops = [c, a, b]
    sh = bshape([x.shape if isinstance(x, SArr) else () for x in ops])
    nd = len(sh)
    dt = result_dtype(operator.add, (a, b))

    def getter(x):
        if isinstance(x, SArr):
            g, s = x.snap(), x.shape
            return lambda idx: g(*bidx(s, nd, idx))
        if isinstance(x, np.generic):
            x = x.item()
        return lambda idx: x
    gc, ga, gb = getter(c), getter(a), getter(b)

    def get(*idx):
        cv = gc(idx)
        if not isinstance(cv, (bool, SBool)) and type(cv).__name__ != 'bool_':
            cv = cv != 0
        if not isinstance(cv, SBool):
            return wrap(ga(idx), dt) if cv else wrap(gb(idx), dt)
        return ite(cv, wrap(ga(idx), dt), wrap(gb(idx), dt))

    def getf(fl, i):
        cv, av, bv = (f(i) for f in fl)
        if not isinstance(cv, SBool):
            return wrap(av, dt) if cv else wrap(bv, dt)
        return ite(cv, wrap(av, dt), wrap(bv, dt))
    fl = flat_of((c, a, b))
    return SArr(sh, dt, get, flat=(lambda i: getf(fl, i)) if fl else None)


def np_where1(mask):
    """np.where(mask)[0]: enumeration of the true positions, by a hinted closed form.

    The hint (s, inv, count) is *checked*: s enumerates exactly the true positions in
    increasing order, and there are count of them.
    """
    c = ctx()
    if mask.ndim == 1 and _is_int(mask.shape[0]) and mask.shape[0] <= 4096:
        g = mask.snap()
        vals = [g(i) for i in range(mask.shape[0])]
        if not any(is_sym(v) for v in vals):
            idx = [i for i, v in enumerate(vals) if v]
            return (as_sarr(np.array(idx, dtype=np.int64)),)
    hint = c.state.get('where_hint')
    if hint is None or mask.ndim != 1:
        raise Unsupported('np.where(mask) without an enumeration hint')
    g = mask.snap()
    n = mask.shape[0]
    key = 'where'
    r = hint.prove(c, g, n)
    return (SArr((r[1],), np.int64, r[0]),)


def np_cumsum(a):
    c = ctx()
    hint = c.state.get('cumsum_hint')
    if not is_sym(a.shape[0]):
        vals = []
        tot = 0
        for i in range(a.shape[0]):
            v = a.at(i)
            tot = tot + (v.as_int() if isinstance(v, SBool) else v)
            vals.append(tot)
        return SArr(a.shape, np.int64, lambda i: index_concrete(vals, i))
    if hint is None:
        raise Unsupported('cumsum of symbolic length without a closed form')
    h = hint.prove(c, a.snap(), a.shape[0])
    return SArr(a.shape, np.int64, h)


def np_roll(a, k, axis=None):
    if is_sym(k):
        raise Unsupported('roll')
    g, n = a.snap(), a.shape[0]
    if a.ndim != 1:
        raise Unsupported('roll 2-d')
    k = int(k)

    def get(i):
        j = i - k
        if not is_sym(j) and not is_sym(n):
            return g(j % n)
        if k > 0:
            if j < 0:
                return g(j + n)
            return g(j)
        if j >= n:
            return g(j - n)
        return g(j)
    return SArr(a.shape, a.dtype, get)


def np_diff(a):
    g = a.snap()
    return SArr((a.shape[0] - 1,), a.dtype, lambda i: g(i + 1) - g(i))


def np_elem(fn, a, dtype=None):
    if isinstance(a, SArr):
        return a.with_(dtype or a.dtype, fn)
    return fn(a)


def np_maximum(a, b):
    def mx(x, y):
        return ite(x >= y, x, y)
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return mx(a, b)
    dt = result_dtype(operator.add, (a, b))
    sh = bshape([x.shape if isinstance(x, SArr) else () for x in (a, b)])
    nd = len(sh)

    def getter(x):
        if isinstance(x, SArr):
            g, s = x.snap(), x.shape
            return lambda idx: g(*bidx(s, nd, idx))
        return lambda idx: x
    ga, gb = getter(a), getter(b)
    return SArr(sh, dt, lambda *i: mx(to_real(ga(i)) if dt.kind == 'f' else ga(i),
                                      to_real(gb(i)) if dt.kind == 'f' else gb(i)))


def np_minimum(a, b):
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return ite(a <= b, a, b)
    return -np_maximum(-a, -b)


def np_round_real(v):
    """Round half to even, as a real."""
    if isinstance(v, (SInt, int)):
        return v
    r = round(to_real(v))
    return to_real(r)


def np_atleast_1d(a):
    if isinstance(a, SArr):
        return a if a.ndim else SArr((1,), a.dtype, lambda i: a.at())
    if isinstance(a, (list, tuple)) or hasattr(a, 'item') and hasattr(a, 'length'):
        return as_sarr(a)
    return as_sarr([a])


def np_concatenate(xs, axis=0):
    """1-d arrays end to end."""
    xs = [as_sarr(x) for x in xs]
    if axis != 0 or any(x.ndim != 1 for x in xs):
        raise Unsupported('concatenate')
    dt = np.result_type(*[x.dtype for x in xs])
    gets = [x.snap() for x in xs]
    lens = [x.shape[0] for x in xs]
    total = 0
    for n in lens:
        total = total + n

    def get(i):
        off = 0
        ends = []
        for n, g in zip(lens, gets):
            ends.append((off, off + n, g))
            off = off + n
        for a, b, g in ends[:-1]:
            c = i < b
            if (bool(c) if not is_sym(c) else bool(SBool(c.t))):
                return g(i - a)
        a, _b, g = ends[-1]
        return g(i - a)
    return SArr((total,), dt, get)
