"""Terms, path context and obligations.

Symbolic integers are mathematical integers kept as linear forms over z3 atoms; symbolic
bit-vectors (SBV) carry numpy-like fixed width semantics; symbolic reals are mathematical reals.
A symbolic boolean forks the current path when Python asks for its truth value.
"""
import time
import traceback

import z3

z3.z3.Z3_DEBUG = False

z3.set_param('smt.random_seed', 7)


class EngineSignal(BaseException):
    """Internal control flow (never catchable by interpreted code)."""


class PathEnd(EngineSignal):
    """The current path is finished (infeasible, or cut by a loop contract)."""


class Unsupported(EngineSignal):
    """The construct is outside the supported subset."""


class Budget(EngineSignal):
    """The work budget is exhausted."""


# --------------------------------------------------------------------------------------
# context


class Obligation:
    __slots__ = ('name', 'status', 'model', 'detail', 'time', 'backend', 'witness')

    def __init__(self, name, status, model=None, detail='', t=0.0, backend='z3', witness=None):
        self.name = name
        self.status = status
        self.model = model
        self.detail = detail
        self.time = t
        self.backend = backend
        self.witness = witness


class Ctx:
    """One path-exploration run."""

    cur = None

    def __init__(self, name, timeout_ms=10000, max_paths=4000, deadline=None, mbqi=True):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []
        self.covers = {}
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.fresh_n = 0
        self.axioms = []
        self.inputs = {}
        self.decisions = []
        self.pos = 0
        self.seen = {}
        self.seen_at = self.seen_n = 0
        self.trace_hooks = []

    # -- path management -------------------------------------------------------------
    def start_path(self, prefix):
        self.decisions = list(prefix)
        self.pos = 0
        self.seen_at, self.seen_n = 0, 0
        self.work_added = []
        self.pc = []
        self.fresh_n = 0
        self.ghost_idx = []
        self.state = {}
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        for a in self.axioms:
            self.solver.add(a)

    def add_axiom(self, a):
        """A stated mathematical axiom, kept for every path."""
        self.axioms.append(a)
        if getattr(self, 'solver', None) is not None:
            self.solver.add(a)

    def fresh_name(self, base):
        self.fresh_n += 1
        return f'{base}!{self.fresh_n}'

    def assume(self, c):
        c = zbool(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline reached')
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.assume(cond if d else z3.Not(cond))
            return d
        can_t = self.check(cond) != z3.unsat
        can_f = self.check(z3.Not(cond)) != z3.unsat if can_t else True
        if can_t and can_f:
            self.work_added.append(self.decisions[: self.pos] + [False])
            d = True
        elif can_t:
            d = True
        else:
            d = False
        self.decisions.append(d)
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, options):
        """Fork over a finite list of alternatives (all explored)."""
        options = list(options)
        lo = 0
        while lo < len(options) - 1:
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]
            else:
                self.work_added.append(self.decisions[: self.pos] + [False])
                self.decisions.append(True)
                d = True
            self.pos += 1
            if d:
                return options[lo]
            lo += 1
        return options[lo]

    # -- obligations -----------------------------------------------------------------
    def oblige(self, name, goal, detail=''):
        """Record and discharge the obligation pc => goal."""
        if isinstance(goal, bool):
            g = z3.BoolVal(goal)
        else:
            g = zbool(goal)
        g = z3.simplify(g)
        full = f'{self.name}::{name}'
        # paths that share a prefix of decisions run it identically: discharge it once
        if self.seen_at != self.pos:
            self.seen_at, self.seen_n = self.pos, 0
        self.seen_n += 1
        key = (tuple(self.decisions[:self.pos]), self.seen_n, name)
        if key in self.seen:
            return self.seen[key]
        r = self.seen[key] = self._discharge(full, g, detail)
        return r

    def _discharge(self, full, g, detail):
        t = time.time()
        if z3.is_true(g):
            self.obligations.append(Obligation(full, 'proved', backend='simplifier'))
            return True
        r = self.check(z3.Not(g))
        backend = 'z3'
        model = None
        if r == z3.unknown:
            # second attempt, non-incremental
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 2)
            for a in self.axioms:
                s.add(a)
            for c in self.pc:
                s.add(c)
            s.add(z3.Not(g))
            r = s.check()
            backend = 'z3(fresh)'
            if r == z3.sat:
                model = s.model()
            elif r == z3.unknown:
                r2 = cvc5_check(s, self.timeout_ms * 2)
                if r2 == 'unsat':
                    r = z3.unsat
                    backend = 'cvc5'
        elif r == z3.sat:
            model = self.solver.model()
        dt = time.time() - t
        if r == z3.unsat:
            self.obligations.append(Obligation(full, 'proved', t=dt, backend=backend))
            return True
        status = 'refuted' if r == z3.sat else 'unknown'
        wit = None
        if model is not None:
            wit = self.concretise(model)
        self.obligations.append(
            Obligation(full, status, model=str(model)[:3000] if model is not None else None,
                       detail=detail or str(g)[:800], t=dt, backend=backend, witness=wit)
        )
        return False

    def concretise(self, model):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = v(model) if callable(v) else str(model.eval(v, model_completion=True))
            except Exception as e:  # noqa: BLE001
                out[k] = f'<{e}>'
        return out

    def cover(self, name):
        """Reachability (vacuity guard): the current path must be satisfiable."""
        full = f'{self.name}::cover:{name}'
        if self.covers.get(full):
            return
        self.covers[full] = self.check() != z3.unsat

    def explore(self, body, prefix=()):
        """Run body on every feasible path."""
        Ctx.cur = self
        work = [list(prefix)]
        while work:
            pre = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self.obligations.append(
                    Obligation(f'{self.name}::paths', 'unknown', detail='path budget exceeded'))
                return
            self.start_path(pre)
            try:
                body(self)
            except PathEnd:
                pass
            except Unsupported as e:
                if self.check() != z3.unsat:
                    self.obligations.append(Obligation(
                        f'{self.name}::subset', 'unknown', detail=f'unsupported: {e}'))
                if sum(o.status != 'proved' for o in self.obligations) > 20:
                    return
            except Budget as e:
                self.obligations.append(
                    Obligation(f'{self.name}::budget', 'unknown', detail=str(e)))
                return
            except RecursionError as e:
                self.obligations.append(
                    Obligation(f'{self.name}::recursion', 'unknown', detail=str(e)))
                return
            except Exception as e:  # noqa: BLE001
                # an exception escaped from the code under proof on a feasible path
                r = self.check()
                if r != z3.unsat:
                    m = self.solver.model() if r == z3.sat else None
                    tb = traceback.format_exc().splitlines()
                    self.obligations.append(Obligation(
                        f'{self.name}::no_exception', 'refuted' if m is not None else 'unknown',
                        model=str(m)[:3000] if m is not None else None,
                        detail=f'{type(e).__name__}: {e} :: ' + ' | '.join(tb[-6:]),
                        witness=self.concretise(m) if m is not None else None))
            work.extend(self.work_added)
            if sum(o.status != 'proved' for o in self.obligations) > 40:
                return


def cvc5_check(solver, timeout_ms):
    try:
        import cvc5
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(timeout_ms))
        p = cvc5.InputParser(s)
        txt = '(set-logic ALL)\n' + solver.sexpr() + '\n(check-sat)\n'
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(s, sm).strip()
            if r in ('sat', 'unsat', 'unknown'):
                return r
        return 'unknown'
    except Exception:  # noqa: BLE001
        return 'unknown'


def ctx():
    return Ctx.cur


# --------------------------------------------------------------------------------------
# symbolic values


class Sym:
    """Base of all symbolic values."""

    def __hash__(self):
        raise Unsupported(f'hash of a symbolic value ({type(self).__name__})')

    def __bool__(self):
        raise Unsupported(f'truth of a symbolic value ({type(self).__name__})')

    def __eq__(self, o):
        if self is o:
            return True
        if o is None or isinstance(getattr(self, 'pytype', None), type) and isinstance(
                o, (str, bytes, int, float)):
            return False
        raise Unsupported(f'equality of symbolic values ({type(self).__name__})')

    def __ne__(self, o):
        return not self == o


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth - 1) for i in x)
    if isinstance(x, dict):
        return any(deep_sym(i, depth - 1) for i in x.values()) or any(
            deep_sym(i, depth - 1) for i in x)
    return False


def zbool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool,)) or type(x).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(x))
    raise Unsupported(f'zbool of {type(x)}')


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def _o(self, o, f):
        if isinstance(o, (bool,)) or type(o).__name__ == 'bool_':
            return mkbool(f(self.t, z3.BoolVal(bool(o))))
        if isinstance(o, SBool):
            return mkbool(f(self.t, o.t))
        return NotImplemented

    def __and__(self, o):
        return self._o(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._o(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._o(o, z3.Xor)

    __rxor__ = __xor__

    def __invert__(self):
        # numpy boolean arrays: elementwise not
        return mkbool(z3.Not(self.t))

    def as_int(self):
        return SInt.of(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        r = self._o(o, lambda a, b: a == b)
        if r is NotImplemented:
            return self.as_int() == o
        return r

    def __ne__(self, o):
        r = self == o
        return mknot(r)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __repr__(self):
        return f'SBool({self.t})'

    __hash__ = Sym.__hash__


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mknot(b):
    if isinstance(b, SBool):
        return mkbool(z3.Not(b.t))
    return not b


def sand(*xs):
    if any(x is False for x in xs):
        return False
    return mkbool(z3.And(*[zbool(x) for x in xs])) if xs else True


def sor(*xs):
    return mkbool(z3.Or(*[zbool(x) for x in xs])) if xs else False


def simplies(a, b):
    return mkbool(z3.Implies(zbool(a), zbool(b)))


_ATOMS = {}


def _is_int(o):
    import numbers
    return isinstance(o, numbers.Integral) or (type(o).__module__ == 'numpy' and hasattr(
        o, 'dtype') and getattr(o, 'shape', None) == () and o.dtype.kind in 'iu')


class SInt(Sym):
    """Mathematical integer: sum(coef * atom) + const over z3 Int atoms."""

    __slots__ = ('lin', 'c')

    def __init__(self, lin, c=0):
        self.lin = lin
        self.c = c

    @staticmethod
    def var(name):
        a = z3.Int(name)
        return SInt.of(a)

    @staticmethod
    def of(t):
        """From a z3 Int expression."""
        if z3.is_int_value(t):
            return t.as_long()
        i = t.get_id()
        _ATOMS[i] = t
        return SInt({i: 1}, 0)

    @property
    def t(self):
        ts = []
        for k, c in self.lin.items():
            ts.append(_ATOMS[k] if c == 1 else _ATOMS[k] * c)
        if self.c or not ts:
            ts.append(z3.IntVal(self.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    @staticmethod
    def mk(lin, c):
        lin = {k: v for k, v in lin.items() if v}
        if not lin:
            return c
        return SInt(lin, c)

    def _coerce(self, o):
        if isinstance(o, SInt):
            return o
        if isinstance(o, SBool):
            return o.as_int()
        if isinstance(o, bool):
            return SInt({}, int(o))
        if _is_int(o):
            return SInt({}, int(o))
        if type(o).__name__ == 'bool_':
            return SInt({}, int(o))
        return None

    def __add__(self, o):
        p = self._coerce(o)
        if p is None:
            if isinstance(o, (float, SReal)) or type(o).__module__ == 'numpy':
                return to_real(self) + o
            return NotImplemented
        if not isinstance(p, SInt):
            p = SInt({}, p)
        lin = dict(self.lin)
        for k, v in p.lin.items():
            lin[k] = lin.get(k, 0) + v
        return SInt.mk(lin, self.c + p.c)

    __radd__ = __add__

    def __neg__(self):
        return SInt.mk({k: -v for k, v in self.lin.items()}, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        p = self._coerce(o)
        if p is None:
            if isinstance(o, (float, SReal)):
                return to_real(self) - o
            return NotImplemented
        if not isinstance(p, SInt):
            p = SInt({}, p)
        return self + SInt({k: -v for k, v in p.lin.items()}, -p.c)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = self._coerce(o)
        if p is None:
            if isinstance(o, (float, SReal)):
                return to_real(self) * o
            if isinstance(o, (list, tuple)):
                return symseq_repeat(o, self)
            if isinstance(o, (str, bytes)):
                raise Unsupported('symbolic repetition of str/bytes')
            return NotImplemented
        if not isinstance(p, SInt):
            p = SInt({}, p)
        if not p.lin:
            return SInt.mk({k: v * p.c for k, v in self.lin.items()}, self.c * p.c)
        if not self.lin:
            return SInt.mk({k: v * self.c for k, v in p.lin.items()}, self.c * p.c)
        # distribute: products of atoms become atoms
        out = 0
        for k, v in self.lin.items():
            for k2, v2 in p.lin.items():
                a, b = sorted((k, k2))
                pr = ctx().state.get('products', {}).get((a, b))
                out = (pr if pr is not None else SInt.of(
                    _ATOMS[a] * _ATOMS[b])) * (v * v2) + out
        lin1 = SInt.mk({k: v * p.c for k, v in self.lin.items()}, 0)
        lin2 = SInt.mk({k: v * self.c for k, v in p.lin.items()}, 0)
        return out + lin1 + lin2 + self.c * p.c

    __rmul__ = __mul__

    def _divmod(self, o):
        p = self._coerce(o)
        if p is None:
            return None
        if isinstance(p, SInt) and p.lin:
            d = p.t
            if mkbool(p.t == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if mkbool(p.t > 0):
                q = SInt.of(z3.simplify(self.t / d))
                return q, self - q * p
            q = SInt.of(z3.simplify((-self).t / (-p).t)) if is_sym(-self) else (-self) // (-p)
            return q, self - q * p
        d = p.c if isinstance(p, SInt) else p
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            q, r = (-self)._divmod(-d) if isinstance(-self, SInt) else divmod(-self, -d)
            return q, -r
        # split off exactly divisible part
        div = {k: v // d for k, v in self.lin.items() if v % d == 0}
        rest = {k: v for k, v in self.lin.items() if v % d != 0}
        qpart = SInt.mk(div, 0)
        if not rest:
            q = qpart + self.c // d
            return q, self.c % d
        # reduce the remaining coefficients modulo d
        red = {k: v % d for k, v in rest.items()}
        qextra = SInt.mk({k: v // d for k, v in rest.items()}, self.c // d)
        rem = SInt.mk(red, self.c % d)
        rt = z3.simplify(rem.t)
        q = SInt.of(z3.simplify(rt / d)) if not z3.is_int_value(rt) else rt.as_long() // d
        m = SInt.of(z3.simplify(rt % d)) if not z3.is_int_value(rt) else rt.as_long() % d
        return q + qextra + qpart, m

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return SInt({}, int(o))._divmod(self)[0]

    def __rmod__(self, o):
        return SInt({}, int(o))._divmod(self)[1]

    def __truediv__(self, o):
        return to_real(self) / o

    def __rtruediv__(self, o):
        return to_real(o) / to_real(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return to_real(self) ** o

    def __rpow__(self, o):
        if o == 2:
            return pow2(self)
        if o == 10:
            return pow10(self)
        raise Unsupported('pow with symbolic exponent')

    def __lshift__(self, n):
        if isinstance(n, int):
            return self * (1 << n)
        raise Unsupported('SInt << symbolic')

    def __rshift__(self, n):
        if isinstance(n, int):
            return self // (1 << n)
        raise Unsupported('SInt >> symbolic')

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def _cmp(self, o, f):
        p = self._coerce(o)
        if p is None:
            if isinstance(o, (float, SReal)) or type(o).__module__ == 'numpy':
                return f(to_real(self), to_real(o))
            return NotImplemented
        d = self - p
        if not isinstance(d, SInt):
            return f(d, 0)
        return mkbool(f(d.t, z3.IntVal(0)))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from .bytesm import Field, SBytes
        code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}.get(length)
        if code is None:
            raise Unsupported('to_bytes length')
        code = code if signed else code.upper()
        lo, hi = (-2**(8 * length - 1), 2**(8 * length - 1)) if signed else (0, 2**(8 * length))
        if not sand(self >= lo, self < hi):
            raise OverflowError('int out of range to convert')
        return SBytes([Field(code, '>' if byteorder == 'big' else '<', self)])

    def __index__(self):
        v = self.concrete()
        if v is None:
            raise Unsupported(f'concrete integer needed for {self.t}')
        return v

    def concrete(self):
        """The value if the path condition forces it, else None."""
        c = ctx()
        if c.check() != z3.sat:
            raise PathEnd
        v = c.solver.model().eval(self.t, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if c.check(self.t != v) == z3.unsat:
            return v.as_long()
        return None

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f'SInt({z3.simplify(self.t)})'

    __hash__ = Sym.__hash__


class SReal(Sym):
    """Mathematical real standing for a Python/numpy float (see assumptions)."""

    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def var(name):
        return SReal(z3.Real(name))

    def _co(self, o):
        r = to_real(o)
        return r

    def _bin(self, o, f):
        r = to_real(o)
        if r is None:
            return NotImplemented
        return mkreal(f(self.t, r.t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented
        if z3.is_rational_value(r.t) and r.t.as_fraction() == 0:
            raise ZeroDivisionError('float division by zero')
        if not z3.is_rational_value(r.t):
            if mkbool(r.t == 0):
                raise ZeroDivisionError('float division by zero')
        return mkreal(self.t / r.t)

    def __rtruediv__(self, o):
        return to_real(o) / self

    def __floordiv__(self, o):
        q = self / o
        return SReal(z3.ToReal(z3.ToInt(q.t)))

    def __mod__(self, o):
        r = to_real(o)
        if z3.is_rational_value(r.t) and r.t.as_fraction() > 0:
            # x - m*k with the one integer k that brings it into [0, m)
            c = ctx()
            memo = c.state.setdefault('mods', {})
            key = (self.t.get_id(), str(r.t))
            if key not in memo:
                k = z3.Int(c.fresh_name('quot'))
                v = self.t - r.t * z3.ToReal(k)
                c.assume(z3.And(v >= 0, v < r.t))
                memo[key] = (v, self.t)
            return SReal(memo[key][0])
        q = z3.ToReal(z3.ToInt((self / r).t))
        return mkreal(self.t - q * r.t)

    def __rmod__(self, o):
        return to_real(o) % self

    def __neg__(self):
        return mkreal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = SReal(z3.RealVal(1))
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, int) and o == -1:
            return 1 / self
        return uf_real('pow', self, to_real(o))

    def __rpow__(self, o):
        return uf_real('pow', to_real(o), self)

    def _cmp(self, o, f):
        r = to_real(o)
        if r is None:
            return NotImplemented
        return mkbool(f(self.t, r.t))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def trunc(self):
        """int(x): truncation toward zero."""
        t = self.t
        return SInt.of(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

    def __round__(self, n=None):
        if n is not None:
            return round_digits(self, n)
        # half to even
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        half = z3.RealVal('1/2')
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SInt.of(z3.simplify(r))

    def __repr__(self):
        return f'SReal({z3.simplify(self.t)})'

    def item(self):
        return self

    def astype(self, dt):
        return self

    __hash__ = Sym.__hash__


def round_digits(x, n):
    """The nearest multiple of 10**-n (which one of two equally near is left open)."""
    if is_sym(n):
        raise Unsupported('round(x, n) with a symbolic n')
    f = z3.Function(f'round.{int(n)}', z3.RealSort(), z3.IntSort())
    k = f(x.t)
    s = z3.RealVal(10) ** int(n) if n < 0 else z3.RealVal(10 ** int(n))
    d = z3.ToReal(k) - x.t * s
    half = z3.RealVal('1/2')
    ctx().assume(mkbool(z3.And(d <= half, -d <= half)))
    return SReal(z3.simplify(z3.ToReal(k) / s))


def mkreal(t):
    return SReal(z3.simplify(t))


def to_real(o):
    if isinstance(o, SReal):
        return o
    if isinstance(o, SInt):
        return SReal(z3.simplify(z3.ToReal(o.t)))
    if isinstance(o, SBool):
        return SReal(z3.If(o.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(o, bool):
        return SReal(z3.RealVal(int(o)))
    if isinstance(o, int):
        return SReal(z3.RealVal(o))
    if isinstance(o, float):
        if o != o or o in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float mixed with a symbolic real')
        from fractions import Fraction
        return SReal(z3.RealVal(Fraction(o)))
    if type(o).__module__ == 'numpy' and getattr(o, 'shape', None) == ():
        return to_real(o.item())
    return None


_UF = {}


def uf(name, n, dom=None, rng=None):
    key = (name, n, str(dom), str(rng))
    if key not in _UF:
        d = z3.RealSort() if dom is None else dom
        r = z3.RealSort() if rng is None else rng
        _UF[key] = z3.Function(name, *([d] * n), r)
    return _UF[key]


def uf_real(name, *args):
    f = uf(name, len(args))
    return SReal(f(*[to_real(a).t for a in args]))


def pow2(n):
    """2**n for a symbolic integer n as an uninterpreted positive real (see axioms in use)."""
    f = uf('pow2', 1, z3.IntSort(), z3.RealSort())
    return SReal(f(n.t))


def pow10(n):
    f = uf('pow10', 1, z3.IntSort(), z3.RealSort())
    return SReal(f(n.t))


def atom_id(x):
    (k, c), = x.lin.items()
    assert c == 1 and x.c == 0
    return k


def define_product(a, b, p):
    """Name the product of two symbolic integers (p stands for a*b)."""
    ctx().state.setdefault('products', {})[tuple(sorted((atom_id(a), atom_id(b))))] = p


def symseq_repeat(x, n):
    from .models import SSeq
    if len(x) == 1:
        v = x[0]
        return SSeq(n, lambda i: v)
    raise Unsupported('symbolic repetition')


# --------------------------------------------------------------------------------------
# bit-vectors (machine words)


class SBV(Sym):
    """Fixed width machine integer; signed tells how it reads as a number."""

    __slots__ = ('t', 'signed')

    def __init__(self, t, signed):
        self.t = t
        self.signed = signed

    @property
    def w(self):
        return self.t.size()

    def cast(self, w, signed):
        """numpy astype / value conversion (wraps)."""
        if w == self.w:
            return SBV(self.t, signed)
        if w < self.w:
            return SBV(z3.simplify(z3.Extract(w - 1, 0, self.t)), signed)
        ext = z3.SignExt if self.signed else z3.ZeroExt
        return SBV(z3.simplify(ext(w - self.w, self.t)), signed)

    def _co(self, o):
        if isinstance(o, SBV):
            return o
        if _is_int(o) or isinstance(o, bool):
            return None
        return None

    def _bin(self, o, f):
        if isinstance(o, SBV):
            w = max(self.w, o.w)
            # numpy promotion of mixed signedness is resolved by the array layer; here
            # both operands are value-extended to the wider width.
            if self.w == o.w and self.signed != o.signed:
                w = self.w * 2
                a, b = self.cast(w, True), o.cast(w, True)
                return SBV(z3.simplify(f(a.t, b.t)), True)
            a, b = self.cast(w, self.signed), o.cast(w, o.signed)
            return SBV(z3.simplify(f(a.t, b.t)), self.signed)
        if _is_int(o) or isinstance(o, bool):
            return SBV(z3.simplify(f(self.t, z3.BitVecVal(int(o), self.w))), self.signed)
        return NotImplemented

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __invert__(self):
        return SBV(~self.t, self.signed)

    def __neg__(self):
        return SBV(-self.t, self.signed)

    def __lshift__(self, n):
        if isinstance(n, int):
            if n < 0:
                raise ValueError('negative shift count')
            if n >= self.w:
                return SBV(z3.BitVecVal(0, self.w), self.signed)
            return SBV(z3.simplify(self.t << n), self.signed)
        raise Unsupported('BV << symbolic')

    def __rshift__(self, n):
        if isinstance(n, int):
            if n < 0:
                raise ValueError('negative shift count')
            if n >= self.w:
                n = self.w - 1
                if not self.signed:
                    return SBV(z3.BitVecVal(0, self.w), False)
            return SBV(
                z3.simplify(self.t >> n if self.signed else z3.LShR(self.t, n)), self.signed)
        raise Unsupported('BV >> symbolic')

    def _cmp(self, o, fs, fu):
        if _is_int(o):
            lo, hi = self.range()
            o = int(o)
            if not lo <= o <= hi:
                # out of range constants: decide by value on a wider vector
                w = self.w + 64
                a = self.cast(w, True)
                return mkbool(fs(a.t, z3.BitVecVal(o, w)))
            b = z3.BitVecVal(o, self.w)
            return mkbool((fs if self.signed else fu)(self.t, b))
        if isinstance(o, SBV):
            w = max(self.w, o.w) + 1
            a, b = self.cast(w, True), o.cast(w, True)
            return mkbool(fs(a.t, b.t))
        return NotImplemented

    def range(self):
        if self.signed:
            return -(1 << (self.w - 1)), (1 << (self.w - 1)) - 1
        return 0, (1 << self.w) - 1

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, z3.ULT)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, z3.ULE)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, z3.UGT)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, z3.UGE)

    def to_int(self):
        return SInt.of(z3.BV2Int(self.t, self.signed))

    def __repr__(self):
        return f'SBV({z3.simplify(self.t)})'

    __hash__ = Sym.__hash__


def bv_to_real(b):
    """Value of a machine word as a real (uninterpreted per width/signedness, injective use)."""
    return SReal(z3.ToReal(z3.BV2Int(b.t, b.signed)))


# --------------------------------------------------------------------------------------
# helpers


def val_eq(a, b):
    """Structural equality of two (possibly symbolic) values, as SBool/bool."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return sand(*[val_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return sand(*[val_eq(a[k], b[k]) for k in a])
    if isinstance(a, SBV) and isinstance(b, SBV):
        w = max(a.w, b.w) + 1
        return mkbool(a.cast(w, True).t == b.cast(w, True).t)
    r = a == b
    if r is NotImplemented:
        return False
    return r


def ite(c, a, b):
    """Value-level if-then-else."""
    if isinstance(c, bool) or type(c).__name__ == 'bool_':
        return a if c else b
    if a is b:
        return a
    ct = zbool(c)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(ct, zbool(a), zbool(b)))
    if isinstance(a, SBV) or isinstance(b, SBV):
        if not isinstance(a, SBV):
            a = SBV(z3.BitVecVal(int(a), b.w), b.signed)
        if not isinstance(b, SBV):
            b = SBV(z3.BitVecVal(int(b), a.w), a.signed)
        if a.w != b.w or a.signed != b.signed:
            w = max(a.w, b.w)
            if a.signed != b.signed:
                w *= 2
                a, b = a.cast(w, True), b.cast(w, True)
            else:
                a, b = a.cast(w, a.signed), b.cast(w, b.signed)
        return SBV(z3.simplify(z3.If(ct, a.t, b.t)), a.signed)
    ints = (int, SInt, bool, SBool)
    if isinstance(a, ints) and isinstance(b, ints):
        at = a.t if isinstance(a, SInt) else z3.IntVal(int(a)) if not isinstance(
            a, SBool) else a.as_int().t
        bt = b.t if isinstance(b, SInt) else z3.IntVal(int(b)) if not isinstance(
            b, SBool) else b.as_int().t
        return SInt.of(z3.simplify(z3.If(ct, at, bt)))
    ra, rb = to_real(a), to_real(b)
    if ra is not None and rb is not None:
        return mkreal(z3.If(ct, ra.t, rb.t))
    # opaque objects: fork
    return a if SBool(ct) else b
