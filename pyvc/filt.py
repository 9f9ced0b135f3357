"""Filtered sequences: what a selection over a sequence of any length yields.

A SFilt is a concatenation of parts; part k-th index contributes items(k), a list of 0, 1 or more
values computed on demand for any index (the loop body or comprehension run on that element).  No
bound on the length is involved: emptiness, extremes and membership are existential facts with a
witness index, or universal facts instantiated at the ghost indices attached to the sequence.
"""
import ast
import builtins
import copy

import z3

from . import nparr
from .core import (PathEnd, SBool, SInt, SReal, Sym, Unsupported, ctx, is_sym, mkbool, mknot, sand,
                   simplies, sor, uf, val_eq)
from .models import SSeq, SStr, ctx_lits, sym_lt


def ikey(k):
    if isinstance(k, SInt):
        return (tuple(sorted(k.lin.items())), k.c)
    return k


def terms_of(x):
    """The z3 terms a value is made of, or None."""
    if isinstance(x, (SInt, SReal, SBool)):
        return [x.t]
    if isinstance(x, SStr):
        return [x.t]
    if isinstance(x, (tuple, list)):
        out = [z3.IntVal(len(x))]
        for v in x:
            t = terms_of(v)
            if t is None:
                return None
            out += t
        return out
    if isinstance(x, bool) or x is None:
        return [z3.StringVal(repr(x))]
    if isinstance(x, int):
        return [z3.IntVal(x)]
    if isinstance(x, float):
        return [z3.RealVal(repr(x))] if x == x and abs(x) < 1e300 else None
    if isinstance(x, str):
        ctx_lits(x)
        return [z3.Const(f'"{x}"', SStr.S)]
    f = getattr(x, 'terms', None)
    if f is not None:
        return f()
    import datetime
    if isinstance(x, (datetime.datetime, datetime.date, datetime.time)):
        return [z3.StringVal(repr(x))]
    return None


def member(seq, x):
    if hasattr(x, 'has_val'):     # an optional value, None never being a member
        return sand(x.has_val, member(seq, x.val))
    return _member(seq, x)


def _member(seq, x):
    """x in seq, as an opaque truth that is the same for equal sequences and equal values."""
    if x is None:
        if any(a is None for a in [seq.item(SInt.var('!member'))]):
            raise Unsupported('membership of None')
        return False
    t = terms_of(x)
    j = terms_of(seq.item(SInt.var('!member')))
    if t is None or j is None:
        raise Unsupported(f'membership of {type(x).__name__} in a symbolic-length sequence')
    n = seq.length
    key = ' '.join([str(n)] + [y.sexpr() for y in j])
    name = 'in ' + key + ' ' + ' '.join(str(y.sort()) for y in t)
    f = z3.Function(name, *[y.sort() for y in t], z3.BoolSort())
    return SBool(f(*t))


class Part:
    """space: the indices of interest (in range), shared by all parts over the same sequence."""

    one = False        # exactly one value per index
    distinct = False   # one value per distinct element of the set it was made from

    def __init__(self, n, items, space=()):
        self.n, self.items = n, items
        self.guard = None     # (raw(k) -> the value, cond(k) -> whether it is kept), or None
        self.space = space if isinstance(space, list) else list(space)
        self.memo = {}

    def at(self, k):
        key = ikey(k)
        if key not in self.memo:
            self.memo[key] = list(self.items(k))
        return self.memo[key]

    def indices(self):
        """Indices to instantiate universal facts at."""
        if not is_sym(self.n):
            return list(range(self.n))
        return list(self.space)


def parts_of(x):
    if isinstance(x, SFilt):
        return list(x.parts)
    if isinstance(x, SSeq):
        if not isinstance(getattr(x, 'ghosts', None), list):
            x.ghosts = list(getattr(x, 'ghosts', ()))
        p = Part(x.length, lambda k: [x.item(k)], x.ghosts)
        p.one = True
        return [p]
    xs = list(x)
    return [Part(len(xs), lambda k: [xs[k]])] if xs else []


def _inrange(p, g):
    if not is_sym(p.n):
        return True
    return sand(g >= 0, g < p.n)


class SFilt(Sym):
    def __init__(self, parts, pytype=list):
        self.parts = list(parts)
        self.pytype = pytype
        self._truth = None

    @property
    def length(self):
        if len(self.parts) != 1:
            raise Unsupported('loop over a concatenation')
        return self.parts[0].n

    def copy(self):
        r = SFilt(self.parts, self.pytype)
        r._truth = self._truth
        return r

    # -- existence -----------------------------------------------------------------
    def pick(self, accept=None):
        """A witness: some element (accept(v) true of it).  Only explored where one exists."""
        c = ctx()
        opts = [i for i, p in enumerate(self.parts) if is_sym(p.n) or p.n]
        if not opts:
            raise PathEnd
        p = self.parts[c.choose(opts)]
        if is_sym(p.n):
            k = SInt.var(c.fresh_name('pick'))
            c.assume(sand(k >= 0, k < p.n))
        else:
            k = c.choose(range(p.n))
        vs = p.at(k)
        if not vs:
            raise PathEnd
        v = vs[0] if len(vs) == 1 else vs[c.choose(range(len(vs)))]
        if isinstance(v, Nested):
            v = SFilt(v.parts).pick(accept)
            if is_sym(p.n):
                p.space.append(k)
            return v
        if accept is not None and not bool(accept(v)):
            raise PathEnd
        if is_sym(p.n):
            p.space.append(k)
        return v

    def every(self, fact):
        """A fact about all elements, at the known indices.  fact(v) is assumed."""
        c = ctx()
        for p in self.parts:
            for g in p.indices():
                ok = _inrange(p, g)
                if not bool(ok):
                    continue
                for v in p.at(g):
                    if isinstance(v, Nested):
                        SFilt(v.parts).every(fact)
                        continue
                    r = fact(v)
                    if r is False:
                        raise PathEnd
                    if r is not True:
                        c.assume(r)

    def __bool__(self):
        if self._truth is None:
            self._truth = self._decide()
        return self._truth

    def _decide(self):
        for p in self.parts:
            for g in p.indices():
                if bool(_inrange(p, g)):
                    for v in p.at(g):
                        if not isinstance(v, Nested) or SFilt(v.parts).known():
                            return True
        if not any(is_sym(p.n) for p in self.parts):
            return False
        if ctx().choose(['some', 'none']) == 'some':
            self.pick()
            return True
        return False

    def known(self):
        """Some element at a known index."""
        for p in self.parts:
            for g in p.indices():
                if bool(_inrange(p, g)):
                    for v in p.at(g):
                        if not isinstance(v, Nested) or SFilt(v.parts).known():
                            return True
        return False

    def has(self, x):
        c = ctx()
        if len(self.parts) == 1 and self.parts[0].one and is_sym(self.parts[0].n):
            p = self.parts[0]
            return bool(member(SSeq(p.n, lambda k: p.at(k)[0]), x))
        if c.choose(['in', 'not in']) == 'in':
            self.pick(lambda v: val_eq(v, x))
            return True
        self.every(lambda v: mknot(val_eq(v, x)))
        return False

    # -- building ------------------------------------------------------------------
    def append(self, v):
        self.extend([v])

    add = append

    def extend(self, vs):
        new = parts_of(vs)
        self.parts += new
        if any(not is_sym(p.n) and p.n for p in new):
            self._truth = True
        elif not self._truth and new:
            self._truth = None

    update = extend

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    __or__ = __add__

    def __iadd__(self, o):
        self.extend(o)
        return self

    __ior__ = __iadd__

    def union(self, *o):
        r = self.copy()
        for x in o:
            r.extend(x)
        return r

    def __getitem__(self, i):
        if isinstance(i, int) and i in (0, -1):
            if not bool(self):
                raise IndexError('list index out of range')
            if len(self.parts) != 1 or self.pytype is not list:
                raise Unsupported('element of a concatenation')
            p = self.parts[0]
            v = self.pick()
            k = p.space[-1]
            for g in p.indices():
                if g is not k and bool(_inrange(p, g)) and bool(g < k if i == 0 else g > k):
                    if p.at(g):
                        raise PathEnd
            return v
        raise Unsupported('element of a filtered sequence')


def guarded(p, pred):
    """Part p filtered by pred, deciding all of its conditions at once where that is possible."""
    if p.one:
        raw, cond = lambda k: p.at(k)[0], lambda k: True
    elif p.guard:
        raw, cond = p.guard
    else:
        return None
    memo = {}

    def both(k):
        key = ikey(k)
        if key not in memo:
            old = cond(k)
            if old is False:
                memo[key] = False
            else:
                try:
                    r = pred(raw(k))
                    if not isinstance(r, (bool, SBool)):
                        r = bool(r)
                except (Unsupported, PathEnd):
                    raise
                except Exception:
                    # only an element the earlier filters let through is looked at
                    if bool(old):
                        raise
                    r = False
                memo[key] = sand(old, r)
        return memo[key]
    q = Part(p.n, lambda k: [raw(k)] if bool(both(k)) else [], p.space)
    q.guard = (raw, both)
    return q


def flat_map(x, fn, pytype=list):
    """fn(v) -> list of values, over the elements of x."""
    out = []
    for p in parts_of(x):
        out.append(Part(p.n, lambda k, p=p: fmap(p.at(k), fn), p.space))
    return SFilt(out, pytype)


def fmap(vs, fn):
    out = []
    for v in vs:
        if isinstance(v, Nested):
            out.append(Nested([Part(q.n, lambda j, q=q: fmap(q.at(j), fn), q.space)
                               for q in v.parts]))
        else:
            out += fn(v)
    return out


def quiet(fn):
    """fn after a probe: no element raises (that path ended in the probe)."""
    def g(v):
        try:
            return fn(v)
        except Exception:
            raise PathEnd from None
    return g


def probe(x, fn):
    """Run fn on an arbitrary element for the exceptions it may raise."""
    c = ctx()
    if c.choose(['element', 'all']) == 'element':
        f = SFilt([Part(p.n, p.items, p.space) for p in parts_of(x)])
        fn(f.pick())
        raise PathEnd


# ------------------------------------------------------------------------------------
# loops that only append

MUTATORS = ('append', 'extend', 'add', 'update')


class Nested:
    """The values a nested loop over a symbolic sequence appends, in place."""

    def __init__(self, parts):
        self.parts = parts


class Collector(list):
    def add(self, v):
        self.append(v)

    def extend(self, vs):
        if isinstance(vs, (SFilt, SSeq)):
            self.append(Nested(parts_of(vs)))
        else:
            for v in vs:
                self.append(v)

    update = extend

    def _no(self, *a, **k):
        raise Unsupported('a list a loop appends to is read in the loop')

    __contains__ = __getitem__ = __bool__ = pop = remove = insert = clear = sort = index = _no


def collected(body, scratch=()):
    """Names the statements call append (...) on, and whether every effect is of that kind.
    scratch: names of objects whose attributes may be assigned (see Interp.scratch)."""
    key = (tuple(id(s) for s in body), tuple(scratch))
    if key not in _collected:
        _collected[key] = (body, _collect(body, scratch))
    r = _collected[key][1]
    return None if r is None else set(r)


_collected = {}


def _collect(body, scratch):
    names, stored = set(), set(scratch)
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stored.add(x.id)
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                names.add(x.func.value.id)
            elif isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Global,
                                ast.Nonlocal, ast.Delete)):
                return None
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                    x.ctx, ast.Store):
                b = x.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id in stored):
                    return None
    return names - stored


_lifted = {}


def lift(s):
    """The loop with every x.attr it calls append (...) on as a local: (loop, {local: x.attr})."""
    if id(s) in _lifted:
        return _lifted[id(s)][1:]
    found = {}
    for b in s.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in MUTATORS and isinstance(x.func.value, ast.Attribute) and \
                    isinstance(x.func.value.value, ast.Name):
                v = x.func.value
                found[f'{v.value.id}.{v.attr}'] = v
    r = s
    if found:
        class Lift(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if isinstance(n.value, ast.Name) and f'{n.value.id}.{n.attr}' in found:
                    return ast.copy_location(ast.Name(
                        id=f'{n.value.id}.{n.attr}', ctx=n.ctx), n)
                self.generic_visit(n)
                return n
        r = copy.copy(s)
        r.body = [Lift().visit(copy.deepcopy(b)) for b in s.body]
    _lifted[id(s)] = (s, r, found)
    return r, found


def auto_loop(interp, s, f, seq):
    """for over a symbolic sequence whose body only appends to local lists: a flat map."""
    new, found = lift(s)
    held = {}
    for name, node in found.items():
        if name.split('.')[0] not in f.locals:
            return flat_loop(interp, s, f, seq)
        held[name] = interp.ev(node, f)
        if not isinstance(held[name], (list, set, SFilt, SSeq)):
            return flat_loop(interp, s, f, seq)
    if not held:
        return flat_loop(interp, s, f, seq)
    f.locals.update(held)
    try:
        if not flat_loop(interp, new, f, seq):
            return False
        for name, node in found.items():
            node = copy.copy(node)
            node.ctx = ast.Store()
            interp.assign(node, f.locals[name], f)
    finally:
        for name in held:
            f.locals.pop(name, None)
    return True


def flat_loop(interp, s, f, seq):
    from .interp import Frame, _Continue
    if s.orelse:
        return False
    scratch = getattr(interp, 'scratch', None)   # (objects, reset)
    loose = [n for n, v in f.locals.items()
             if scratch and any(v is o for o in scratch[0])]
    names = collected(s.body, loose)
    if names is None:
        return False
    names -= {n for n in names if type(f.locals.get(n)).__name__ == 'Opaque'}
    for n in names:
        if not isinstance(f.locals.get(n), (list, set, SFilt, SSeq)):
            return False
    inner = set(interp.assigned_in(s.target))
    for b in s.body:
        inner |= interp.assigned_in(b)
    base = {k: v for k, v in f.locals.items() if k not in inner}

    def run(v):
        g = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                  defclass=f.defclass)
        g.selfobj = f.selfobj
        g.locals = dict(base)
        for n in names:
            g.locals[n] = Collector()
        old = interp.pure
        interp.pure = {} if old is None else old
        if scratch:
            scratch[1]()
            interp.pure = {**interp.pure, **{id(o): o for o in scratch[0]}}
        try:
            interp.assign(s.target, v, g)
            try:
                interp.block(s.body, g)
            except _Continue:
                pass
            except UnboundLocalError as e:
                raise Unsupported(f'loop-carried local: {e}') from None
        finally:
            interp.pure = old
        return {n: list(g.locals[n]) for n in names}
    probe(seq, run)
    run = quiet(run)
    src = parts_of(seq)
    memo = {}

    def at(pi, k):
        key = (pi, ikey(k))
        if key not in memo:
            memo[key] = each(src[pi].at(k))
        return memo[key]

    def each(vs):
        """Per element of vs in turn, what it appends: {name: values}."""
        out = []
        for v in vs:
            if isinstance(v, Nested):
                inner = {}

                def sub(qi, q, j, n, inner=inner):
                    key = (qi, ikey(j))
                    if key not in inner:
                        inner[key] = each(q.at(j))
                    return [w for d in inner[key] for w in d[n]]
                out.append({n: [Nested([Part(q.n, lambda j, qi=qi, q=q, n=n, sub=sub: sub(
                    qi, q, j, n), q.space) for qi, q in enumerate(v.parts)])] for n in names})
            else:
                out.append(run(v))
        return out
    if scratch:
        scratch[1]()
    for n in names:
        old = f.locals[n]
        if isinstance(old, Collector):
            old.append(Nested([Part(p.n, lambda k, pi=pi, n=n: [
                w for d in at(pi, k) for w in d[n]], p.space) for pi, p in enumerate(src)]))
            continue
        r = SFilt(parts_of(old), set if isinstance(old, set) else getattr(old, 'pytype', list))
        for pi, p in enumerate(src):
            q = Part(p.n, lambda k, pi=pi, n=n: [w for d in at(pi, k) for w in d[n]],
                     p.space)
            # the elements of a set are visited once each
            q.distinct = getattr(seq, 'pytype', None) in (set, frozenset)
            r.parts.append(q)
        f.locals[n] = r
    for n in inner:
        f.locals.pop(n, None)
    return True


# ------------------------------------------------------------------------------------


def extreme(interp, x, which, key, kw):
    if not bool(x):
        if 'default' in kw:
            return kw['default']
        raise ValueError(f'{which}() arg is an empty sequence')
    c = ctx()
    kf = (lambda v: interp.call(key, (v,))) if key else (lambda v: v)
    m = x.pick()
    km = kf(m)
    x.every(lambda v: mknot(sym_lt(kf(v), km)) if which == 'min' else mknot(sym_lt(km, kf(v))))
    return m


def register(M):
    old = {n: getattr(M, n) for n in ('contains', 'symbolic_iter', 'getitem', 'm_min', 'm_max',
                                      'iterate')}

    def contains(interp, cont, x):
        if isinstance(cont, SFilt):
            return cont.has(x)
        if isinstance(cont, SSeq) and is_sym(cont.length):
            return member(cont, x)
        return old['contains'](interp, cont, x)

    def symbolic_iter(interp, v):
        if isinstance(v, SFilt):
            return v
        return old['symbolic_iter'](interp, v)

    def getitem(interp, o, k):
        if isinstance(o, SFilt):
            return o[k]
        return old['getitem'](interp, o, k)
    M.contains, M.symbolic_iter, M.getitem = contains, symbolic_iter, getitem

    def ext(which):
        def f(interp, args, kw):
            x = args[0] if len(args) == 1 else None
            if isinstance(x, SSeq) and isinstance(getattr(x, 'ghosts', None), list):
                x = SFilt(parts_of(x))
            if isinstance(x, SFilt):
                return extreme(interp, x, which, kw.get('key'), kw)
            return old['m_' + which](interp, args, kw)
        return f
    M.reg(min, ext('min'))
    M.reg(max, ext('max'))

    def conv(t, prev):
        def f(interp, args, kw):
            if args:
                x = args[0]
                if isinstance(x, SFilt):
                    r = x.copy()
                    r.pytype = t
                    return r
                if isinstance(x, SSeq) and is_sym(x.length):
                    if t in (set, frozenset):
                        return SFilt(parts_of(x), t)
                    r = SSeq(x.length, x._item, t)
                    r.ghosts = getattr(x, 'ghosts', ())
                    return r
            return prev(interp, args, kw) if prev else NotImplemented
        return f
    for t in (list, tuple, set, frozenset):
        M.reg(t, conv(t, M.lookup(t)))

    def m_filter(interp, args, kw):
        fn, x = args
        s = interp.models.symbolic_iter(interp, x)
        if s is None:
            return [v for v in interp.iterate(x)
                    if interp.truth(v if fn is None else interp.call(fn, (v,)))]

        check = interp.unchanged(fn.parent, [fn.node]) if getattr(
            fn, 'parent', None) is not None and getattr(fn, 'node', None) is not None \
            else lambda: None

        def pred(v):
            check()
            return v if fn is None else interp.call(fn, (v,))

        def keep(v):
            return [v] if interp.truth(pred(v)) else []
        probe(s, keep)
        keep = quiet(keep)
        out = []
        for p in parts_of(s):
            r = guarded(p, pred)
            out.append(r or Part(p.n, lambda k, p=p: [
                w for v in p.at(k) for w in keep(v)], p.space))
        return SFilt(out)
    M.reg(builtins.filter, m_filter)

    def m_len(interp, args, kw):
        x = args[0]
        if isinstance(x, SFilt):
            c = ctx()
            n = SInt.var(c.fresh_name('count'))
            c.assume(n >= 1 if bool(x) else n == 0)
            return n
        return olen(interp, args, kw) if olen else NotImplemented
    olen = M.lookup(len)
    M.reg(len, m_len)

    def quant(is_any, prev):
        def f(interp, args, kw):
            x = args[0]
            if isinstance(x, SSeq):
                x = SFilt(parts_of(x))
            if isinstance(x, SFilt):
                c = ctx()
                if c.choose(['witness', 'none']) == 'witness':
                    x.pick(lambda v: interp.truth(v) is is_any)
                    return is_any
                for p in x.parts:
                    for g in p.indices():
                        if bool(_inrange(p, g)):
                            for v in p.at(g):
                                if interp.truth(v) is is_any:
                                    raise PathEnd
                return not is_any
            return prev(interp, args, kw) if prev else NotImplemented
        return f
    M.reg(any, quant(True, M.lookup(any)))
    M.reg(all, quant(False, M.lookup(all)))
    return M
