"""C30: OrderedSet against an abstract ordered set (membership, insertion order, size).

Contracts, for every abstract state and every item (the sequence quantifier is closed by
induction: each operation is proved from an arbitrary well-formed state):
    __init__(items): members are exactly the items, ordered by first occurrence
    add(x)         : V' = V if x in V else V + [x]
    discard(x)     : V' = V without x, order kept
    __contains__, __len__, __iter__ : membership, size, members in order
    __eq__         : same members in the same order / same members
"""
import z3

from pyvc.core import Ctx, SInt, Sym, mkbool, mknot, sand, simplies, sor, is_sym
from pyvc.dicts import SDict, SSet, register, kt, K
from pyvc.interp import Interp, LoopContract
from pyvc.models import Models, SSeq, SStr


def iff(a, b):
    return sand(simplies(a, b), simplies(b, a))


def setup(c):
    c.state_global = {}
    c.state['ghost_keys'] = [SStr.var('g'), SStr.var('h')]
    i, j = SInt.var('i'), SInt.var('j')
    c.state['ghosts'] = [(1, (i,)), (1, (j,))]
    return c.state['ghost_keys'], i, j


def oset(d, cls=None):
    import gempakio.tools as T
    o = object.__new__(cls or T.OrderedSet)
    o._dict = d
    return o


def run(name, body, deadline, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(body)
    return c


def abs_dict(o):
    d = o._dict
    if isinstance(d, dict) and not d:
        return SDict.empty()
    return d


class InitLoop(LoopContract):
    names = ('self',)

    def __init__(self, first, cnt, keys):
        self.first, self.cnt, self.keys = first, cnt, keys

    def applies(self, f, interp):
        return 'self' in f.locals and hasattr(f.locals['self'], '_dict')

    def begin(self, f, interp, seq):
        self.seq = seq

    def havoc(self, f, interp, seq, k):
        d = SDict.arbitrary('loop')
        f.locals['self']._dict = d

    def facts(self, keys, k):
        d = abs_dict(self.f.locals['self'])
        kk = k.t if is_sym(k) else z3.IntVal(k)
        out = []
        for u in keys:
            t = kt(u)
            out.append(('member', mkbool(d.mem(t) == z3.And(self.first(t) >= 0,
                                                            self.first(t) < kk))))
            for v in keys:
                if u is not v:
                    s = kt(v)
                    out.append(('order', mkbool(z3.Implies(
                        z3.And(d.mem(t), d.mem(s)),
                        (d.pos(t) < d.pos(s)) == (self.first(t) < self.first(s))))))
        out.append(('length', mkbool((d.n.t if is_sym(d.n) else z3.IntVal(d.n))
                                     == self.cnt(kk))))
        return out

    def inv(self, f, interp, seq, k):
        self.f = f
        return self.facts(self.keys, k)

    def assume_step(self, f, interp, seq, k):
        from pyvc.core import ctx
        c = ctx()
        x = seq.item(k)
        for nm, cond in self.facts(self.keys + [x], k):
            c.assume(cond)
        abs_dict(f.locals['self']).wf(x)
        self.axioms(seq, k)
        c.assume(mkbool(self.cnt((k + 1).t) == self.cnt(k.t) + z3.If(
            self.first(kt(x)) == k.t, 1, 0)))

    def axioms(self, seq, k):
        """Definition of first(): the least index holding the key."""
        from pyvc.core import ctx
        c = ctx()
        x = seq.item(k)
        t = kt(x)
        c.assume(mkbool(z3.And(self.first(t) >= 0, self.first(t) <= k.t)))
        for g in self.keys:
            fg = SInt.of(self.first(kt(g)))
            c.assume(simplies(sand(fg >= 0, fg < seq.length), seq.item(fg) == g))
            c.assume(simplies(x == g, sand(fg >= 0, fg <= k)))


def prove_init(deadline=None):
    import gempakio.tools as T

    def body(c):
        (g, h), i, j = setup(c)
        it = Interp(register(Models()))
        form = c.choose(['none', 'items'])
        if form == 'none':
            o = it.call(T.OrderedSet, ())
            d = abs_dict(o)
            c.oblige('empty', sand(mknot(d.has(g)), d.n == 0))
            return
        n = SInt.var('n')
        c.assume(n >= 0)
        f = z3.Function('item', z3.IntSort(), K)
        seq = SSeq(n, lambda q: SStr(f(q.t if is_sym(q) else z3.IntVal(q))))
        first = z3.Function('first', K, z3.IntSort())
        cnt = z3.Function('distinct', z3.IntSort(), z3.IntSort())
        c.assume(mkbool(cnt(z3.IntVal(0)) == 0))
        for u in (g, h):      # first() of a key that does not occur is the length
            c.assume(mkbool(z3.And(first(kt(u)) >= 0, first(kt(u)) <= n.t)))
        it.loops = [('gempakio.tools.OrderedSet.__init__', None, InitLoop(first, cnt, [g, h]))]
        o = it.call(T.OrderedSet, (seq,))
        d = abs_dict(o)
        c.oblige('member', mkbool(d.mem(kt(g)) == (first(kt(g)) < n.t)))
        c.oblige('order', simplies(sand(d.has(g), d.has(h)),
                                   mkbool((d.pos(kt(g)) < d.pos(kt(h)))
                                          == (first(kt(g)) < first(kt(h))))))
        c.oblige('length', mkbool((d.n.t if is_sym(d.n) else z3.IntVal(d.n)) == cnt(n.t)))
        c.cover('end')
    return [run('OrderedSet.__init__', body, deadline)]


def prove_ops(deadline=None):
    import gempakio.tools as T

    def body(c):
        (g, h), i, j = setup(c)
        it = Interp(register(Models()))
        d = SDict.arbitrary('set')
        old = d.copy()
        o = oset(d)
        x = SStr.var('x')
        d.wf(x)
        op = c.choose(['add', 'discard', 'contains', 'len', 'iter'])
        if op == 'add':
            it.call(it.getattr(o, 'add'), (x,))
            d = abs_dict(o)
            c.oblige('add.member', iff(d.has(g), sor(old.has(g), g == x)))
            c.oblige('add.order', simplies(sand(old.has(g), old.has(h)),
                                           iff(d.before(g, h), old.before(g, h))))
            c.oblige('add.last', simplies(sand(old.has(g), h == x, mknot(old.has(x))),
                                          d.before(g, h)))
            c.oblige('add.length', d.n == old.n + mknot(old.has(x)))
            d.stamp  # well-formedness of the stamps is kept
            c.oblige('add.wf', simplies(d.has(g), mkbool(
                d.pos(kt(g)) < (d.stamp.t if is_sym(d.stamp) else d.stamp))))
        elif op == 'discard':
            it.call(it.getattr(o, 'discard'), (x,))
            d = abs_dict(o)
            c.oblige('discard.member', iff(d.has(g), sand(old.has(g), mknot(g == x))))
            c.oblige('discard.order', simplies(sand(d.has(g), d.has(h)),
                                               iff(d.before(g, h), old.before(g, h))))
            c.oblige('discard.length', d.n == old.n - old.has(x))
        elif op == 'contains':
            r = it.contains(o, x)
            c.oblige('contains', iff(r, old.has(x)))
        elif op == 'len':
            r = it.call(len, (o,))
            c.oblige('len', r == old.n)
        else:
            s = it.iterate_sym(o) if hasattr(it, 'iterate_sym') else it.call(
                it.getattr(o, '__iter__'), ())
            c.oblige('iter.length', s.length == old.n)
            a, b = s.item(i), s.item(j)
            inr = sand(i >= 0, i < j, j < old.n)
            c.oblige('iter.member', simplies(sand(i >= 0, i < old.n), old.has(a)))
            c.oblige('iter.order', simplies(inr, old.before(a, b)))
        if op != 'iter':
            c.oblige('frame', o.__dict__.keys() == {'_dict'})
        else:
            c.oblige('iter.frame', iff(abs_dict(o).has(g), old.has(g)))
        c.cover(op)
    return [run('OrderedSet operations', body, deadline)]


def prove_eq(deadline=None):
    def body(c):
        (g, h), i, j = setup(c)
        it = Interp(register(Models()))
        a = oset(SDict.arbitrary('a'))
        kind = c.choose(['ordered', 'other'])
        if kind == 'ordered':
            b = oset(SDict.arbitrary('b'))
            r = it.call(it.getattr(a, '__eq__'), (b,))
            w = c.state.get('list_witness')
            # an order-sensitive comparison of the two member sequences
            if w is None:
                c.oblige('eq.ordered_comparison', False)
            truth = c.branch(r.t) if isinstance(r, Sym) else bool(r)
            sa, sb = a._dict, b._dict
            if truth:
                c.oblige('eq.same_length', sa.n == sb.n)
                c.cover('equal')
            else:
                c.cover('different')
                c.oblige('eq.differs', sor(mknot(sa.n == sb.n), sand(w >= 0, w < sa.n)))
        else:
            b = SSet.arbitrary('b')
            r = it.call(it.getattr(a, '__eq__'), (b,))
            truth = c.branch(r.t) if isinstance(r, Sym) else bool(r)
            if truth:
                c.oblige('eq.same_members', iff(a._dict.has(g), b.has(g)))
                c.cover('equal.set')
            else:
                w = c.state['set_witness']
                c.cover('different.set')
                c.oblige('eq.other_member', mkbool(a._dict.mem(w) != b.mem(w)))
    return [run('OrderedSet.__eq__', body, deadline)]


if __name__ == '__main__':
    for c in prove_init() + prove_ops() + prove_eq():
        bad = [o for o in c.obligations if o.status != 'proved']
        print(c.name, len(c.obligations), 'bad', len(bad), c.paths, {k: v for k, v in c.covers.items() if not v})
        for o in bad[:6]:
            print('  ', o.name, o.status, o.detail[:500], (o.model or '')[:600])
