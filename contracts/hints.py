"""Closed forms with checked obligations (lemmas) for numpy reductions of symbolic length.

A harness first explores every path in lemma mode, without its case split on the ghost index;
there each closed form is proved where it is used, under assumptions no stronger than those of
the main paths, which then use it.
"""
import z3

from pyvc.core import PathEnd, SInt, SBool, mkbool, sand, simplies, is_sym


class CumsumHint:
    """np.cumsum(a)[i] == h(i): proved by induction, one obligation per residue of i mod m."""

    def __init__(self, h, m, label):
        self.h, self.m, self.label = h, m, label

    def prove(self, c, g, n):
        key = f'cumsum:{self.label}'
        opts = ['use']
        if c.state.get('lemma_mode'):
            opts = [('step', r) for r in range(self.m)] + ['base', 'use']
        mode = c.choose(opts)

        def asint(v):
            return v.as_int() if isinstance(v, SBool) else int(v) if isinstance(v, bool) else v
        if mode == 'base':
            c.oblige(f'{key}.base', self.h(0) == asint(g(0)))
            raise PathEnd
        if mode != 'use':
            q = SInt.var(c.fresh_name('q'))
            i = q * self.m + mode[1]
            c.assume(q >= 0)
            c.assume(i >= 1)
            c.assume(i < n)
            c.cover(f'{key}.step')
            c.oblige(f'{key}.step', self.h(i) == self.h(i - 1) + asint(g(i)))
            raise PathEnd
        return self.h


class WhereHint:
    """np.where(mask)[0][w] == s(w) for w < count, checked exactly.

    inv(i): the position in the enumeration of a true index i.
    """

    def __init__(self, s, inv, count, mw, mi, label):
        self.s, self.inv, self.count = s, inv, count
        self.mw, self.mi, self.label = mw, mi, label

    def prove(self, c, g, n):
        key = f'where:{self.label}'
        opts = ['use']
        if c.state.get('lemma_mode'):
            opts = [('true', r) for r in range(self.mw)] + [
                ('only', r) for r in range(self.mi)] + ['use']
        mode = c.choose(opts)
        if mode == 'use':
            return self.s, self.count
        q = SInt.var(c.fresh_name('q'))
        c.assume(q >= 0)
        if mode[0] == 'true':
            w = q * self.mw + mode[1]
            c.assume(w < self.count)
            c.cover(f'{key}.true')
            c.oblige(f'{key}.range', sand(self.s(w) >= 0, self.s(w) < n))
            v = g(self.s(w))
            c.oblige(f'{key}.true', v)
            c.oblige(f'{key}.increasing', self.s(w) < self.s(w + 1))
            raise PathEnd
        i = q * self.mi + mode[1]
        c.assume(i < n)
        c.cover(f'{key}.only')
        v = g(i)
        w = self.inv(i)
        c.oblige(f'{key}.only', simplies(
            v, sand(w >= 0, w < self.count, self.s(w) == i)))
        raise PathEnd
