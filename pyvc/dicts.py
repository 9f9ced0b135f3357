"""Insertion-ordered dictionaries and sets of unbounded symbolic size.

A dictionary is (mem, pos, val, n, stamp): membership, insertion stamp and value per key, number
of keys and the next stamp.  Keys are of an uninterpreted sort (SStr).  The assumed contract of
the builtin dict is that a new key is stamped last, an existing key keeps its stamp, and
iteration is by stamp.
"""
import z3

from .core import (SInt, Sym, SBool, PathEnd, Unsupported, ctx, is_sym, ite, mkbool, mknot, sand,
                   simplies, sor)
from .models import SSeq, SStr

K = SStr.S


def kt(k):
    if isinstance(k, SStr):
        return k.t
    if isinstance(k, str):
        from .models import ctx_lits
        return ctx_lits(k)
    raise Unsupported(f'dictionary key {type(k).__name__}')


class SDict(Sym):
    """Order-preserving dictionary; also used for ordered sets of keys."""

    pytype = dict

    def __init__(self, mem, pos, n, stamp, val=None):
        self.mem, self.pos, self.n, self.stamp = mem, pos, n, stamp
        self.val = val or (lambda k: None)

    @staticmethod
    def arbitrary(name):
        c = ctx()
        m = z3.Function(c.fresh_name(name + '.mem'), K, z3.BoolSort())
        p = z3.Function(c.fresh_name(name + '.pos'), K, z3.IntSort())
        n = SInt.var(c.fresh_name(name + '.len'))
        s = SInt.var(c.fresh_name(name + '.stamp'))
        c.assume(n >= 0)
        d = SDict(lambda k: m(k), lambda k: p(k), n, s)
        # well-formedness of the stamps, used at the ghost keys
        for g in c.state.get('ghost_keys', []):
            d.wf(g)
        return d

    @staticmethod
    def empty():
        return SDict(lambda k: z3.BoolVal(False), lambda k: z3.IntVal(0), 0, 0)

    def wf(self, k):
        c = ctx()
        t = kt(k)
        st = self.stamp.t if is_sym(self.stamp) else z3.IntVal(self.stamp)
        c.assume(simplies(mkbool(self.mem(t)), mkbool(self.pos(t) < st)))
        n = self.n.t if is_sym(self.n) else z3.IntVal(self.n)
        c.assume(simplies(mkbool(self.mem(t)), mkbool(n >= 1)))
        for h in c.state.get('ghost_keys', []):
            u = kt(h)
            c.assume(simplies(mkbool(z3.And(self.mem(t), self.mem(u), t != u)),
                              mkbool(self.pos(t) != self.pos(u))))

    def has(self, k):
        return mkbool(self.mem(kt(k)))

    def before(self, a, b):
        return mkbool(self.pos(kt(a)) < self.pos(kt(b)))

    def store(self, k, v):
        self.wf(k)
        t = kt(k)
        mem, pos, val, st = self.mem, self.pos, self.val, self.stamp
        stt = st.t if is_sym(st) else z3.IntVal(st)
        had = mkbool(mem(t))
        self.mem = lambda u: z3.Or(mem(u), u == t)
        self.pos = lambda u: z3.If(z3.And(u == t, z3.Not(mem(t))), stt, pos(u))
        self.n = ite(had, self.n, self.n + 1)
        self.stamp = st + 1
        self.val = lambda u: v if u.eq(t) else _vite(u == t, v, val(u))

    def remove(self, k):
        self.wf(k)
        t = kt(k)
        mem = self.mem
        had = mkbool(mem(t))
        self.mem = lambda u: z3.And(mem(u), u != t)
        self.n = ite(had, self.n - 1, self.n)

    # -- dict interface -----------------------------------------------------------------
    def pop(self, k, *default):
        had = self.has(k)
        if not default and not had:
            raise KeyError(k)
        if default and default[0] is None and self.val(kt(k)) is None:
            self.remove(k)
            return None
        if had:
            v = self.val(kt(k))
            self.remove(k)
            return v
        return default[0]

    def get(self, k, default=None):
        if self.has(k):
            return self.val(kt(k))
        return default

    def setdefault(self, k, default=None):
        if not self.has(k):
            self.store(k, default)
        return self.val(kt(k))

    def clear(self):
        self.__dict__.update(SDict.empty().__dict__)

    def copy(self):
        return SDict(self.mem, self.pos, self.n, self.stamp, self.val)

    def keys(self):
        return self.seq()

    def sym_len(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def seq(self):
        """The keys in order, as a sequence of symbolic length."""
        c = ctx()
        f = z3.Function(c.fresh_name('key'), z3.IntSort(), K)
        mem, pos, n = self.mem, self.pos, self.n

        def item(i):
            it = i.t if is_sym(i) else z3.IntVal(i)
            k = f(it)
            inr = sand(i >= 0, i < n)
            c = ctx()
            c.assume(simplies(inr, mkbool(mem(k))))
            for j in c.state.setdefault('seq_idx', {}).setdefault(f.name(), []):
                jt = j.t if is_sym(j) else z3.IntVal(j)
                c.assume(simplies(sand(inr, j >= 0, j < n), sand(
                                  mkbool((it < jt) == (pos(k) < pos(f(jt)))),
                                  mkbool((jt < it) == (pos(f(jt)) < pos(k))))))
            c.state['seq_idx'][f.name()].append(i)
            return SStr(k)
        s = SSeq(n, item)
        s.of_dict = self.copy()
        return s


def _vite(cond, a, b):
    if a is None and b is None:
        return None
    return ite(mkbool(cond), a, b)


class SSet(Sym):
    """A set of keys given by its membership predicate."""

    pytype = set

    def __init__(self, mem, n=None):
        self.mem, self.n = mem, n

    @staticmethod
    def arbitrary(name):
        c = ctx()
        m = z3.Function(c.fresh_name(name + '.mem'), K, z3.BoolSort())
        return SSet(lambda k: m(k))

    def __eq__(self, o):
        if isinstance(o, (SDict,)):
            o = SSet(o.mem)
        if not isinstance(o, SSet):
            return False
        c = ctx()
        e = z3.Bool(c.fresh_name('seteq'))
        w = z3.Const(c.fresh_name('setdiff'), K)
        c.assume(mkbool(z3.Or(e, self.mem(w) != o.mem(w))))
        for g in c.state.get('ghost_keys', []):
            t = kt(g)
            c.assume(mkbool(z3.Implies(e, self.mem(t) == o.mem(t))))
        c.state['set_witness'] = w
        return SBool(e)

    def __ne__(self, o):
        return mknot(self == o)

    __hash__ = Sym.__hash__

    def has(self, k):
        return mkbool(self.mem(kt(k)))


def seq_equal(a, b):
    """list == list for symbolic lengths, with a witness of the difference."""
    c = ctx()
    e = z3.Bool(c.fresh_name('listeq'))
    w = SInt.var(c.fresh_name('listdiff'))
    same = a.length == b.length
    d = mknot(val_eq_(a.item(w), b.item(w)))
    c.assume(sor(SBool(e), mknot(same), sand(w >= 0, w < a.length, d)))
    c.assume(simplies(SBool(e), same))
    for nd, g in c.state.get('ghosts', []):
        if nd == 1:
            g = g[0]
            c.assume(simplies(sand(SBool(e), g >= 0, g < a.length),
                              val_eq_(a.item(g), b.item(g))))
    c.state['list_witness'] = w
    return SBool(e)


def val_eq_(a, b):
    from .core import val_eq
    return val_eq(a, b)


def register(M):
    """Adds the models to a Models instance."""
    def m_iter(interp, args, kw):
        x = args[0]
        if isinstance(x, SDict):
            return x.seq()
        if isinstance(x, SSeq):
            return x
        return NotImplemented
    M.reg(iter, m_iter)
    old_list, old_set = M.m_list, M.m_set
    from .interp import is_repo_class

    def as_seq(interp, x):
        if is_repo_class(type(x)):
            a = interp.class_attr(type(x), '__iter__')
            if a:
                x = interp.call(a[0], (x,))
        if isinstance(x, SDict):
            x = x.seq()
        return x

    def m_list(interp, args, kw):
        if args:
            x = as_seq(interp, args[0])
            if isinstance(x, SSeq):
                return x
        return old_list(interp, args, kw)

    def m_set(interp, args, kw):
        if args:
            x = as_seq(interp, args[0])
            if isinstance(x, SSet):
                return x
            if isinstance(x, SSeq) and hasattr(x, 'of_dict'):
                return SSet(x.of_dict.mem, x.of_dict.n)
            if isinstance(x, SSeq):
                raise Unsupported('set of a symbolic-length sequence')
        return old_set(interp, args, kw)
    for f in (list, tuple):
        M.reg(f, m_list)
    M.reg(set, m_set)
    M.reg(frozenset, m_set)
    old_cont, old_set_, old_cmp, old_get, old_sym = (
        M.contains, M.setitem, M.compare, M.getitem, M.symbolic_iter)

    def contains(interp, cont, x):
        if isinstance(cont, (SDict, SSet)):
            return cont.has(x)
        return old_cont(interp, cont, x)

    def setitem(interp, o, k, v):
        if isinstance(o, SDict):
            o.store(k, v)
            return None
        return old_set_(interp, o, k, v)

    def getitem(interp, o, k):
        if isinstance(o, SDict):
            if not o.has(k):
                raise KeyError(k)
            return o.val(kt(k))
        return old_get(interp, o, k)

    def compare(interp, fn, a, b):
        import operator
        if isinstance(a, SSeq) and isinstance(b, SSeq) and fn in (operator.eq, operator.ne):
            r = seq_equal(a, b)
            return r if fn is operator.eq else mknot(r)
        return old_cmp(interp, fn, a, b)

    def symbolic_iter(interp, v):
        if isinstance(v, SDict):
            return v.seq()
        if is_repo_class(type(v)):
            v = as_seq(interp, v)
            if isinstance(v, SSeq) and is_sym(v.length):
                return v
        return old_sym(interp, v)
    M.contains, M.setitem, M.compare, M.getitem, M.symbolic_iter = (
        contains, setitem, compare, getitem, symbolic_iter)
    M.new_dict = lambda interp: SDict.empty()
    M.del_item = lambda interp, o, k: o.pop(k)
    return M


class DictOf(Sym):
    """A dictionary made of a sequence of (key, value) of symbolic length.

    Keys may repeat, so only its making is known: the sequence it was made from.
    """

    pytype = dict

    def __init__(self, seq):
        self.seq = seq
