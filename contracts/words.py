"""A file as a sequence of words being written: the stream handed to the writers.

Words are put one after another; writers' loops of symbolic length are summarised by
    each turn writes the same number of words, w say (measured, then proved);
so turn k writes [start + k*w, start + (k+1)*w), and the word at a given address was put by
the turn whose span contains it.  The words of one address (`watch`) are kept; every word
put lies in the section being written (`frame`) and outside every block already written
(`blocks`).
"""
from pyvc.core import PathEnd, SInt, Sym, Unsupported, ctx, is_sym, mknot, sand, sor, val_eq
from pyvc.filt import collected
from pyvc.interp import Frame, _Break, _Continue


class Words(Sym):
    """Stub of GempakStream: contracts of its methods (proved in file_layout)."""

    def __init__(self, pos, watch=None):
        self.pos, self.watch, self.got = pos, watch, []
        self.frame, self.blocks = None, []
        self.muted = self.jumped = False
        self.hints = []
        self.touched = None

    def put(self, what, value, words=1):
        c = ctx()
        p = self.pos
        if not self.muted:
            if self.frame is not None:
                c.oblige('written within its section', self.frame(p, p + words))
            for lo, hi in self.blocks:
                c.oblige('no word of another block is overwritten',
                         sor(p + words <= lo, p >= hi))
            if self.watch is not None and bool(
                    sand(p <= self.watch, self.watch < p + words)):
                self.got = [(what, value, self.watch - p)]
        self.pos = p + words

    def jump_to(self, w):
        self.jumped = True
        self.pos = w

    def word(self):
        return self.pos

    def write_int(self, i):
        ctx().oblige('an integer is written', isinstance(i, int) or kind(i) is int)
        self.put('i', i)

    def write_float(self, x):
        ctx().oblige('a number is written', isinstance(x, (int, float)) or
                     kind(x) in (int, float))
        self.put('f', x)

    def write_string(self, s):
        ctx().oblige('a text is written', isinstance(s, str) or kind(s) is str)
        self.put('s', s)

    def write_struct(self, struct_class, **kw):
        size = struct_class.size
        ctx().oblige('whole words', size % 4 == 0)
        ctx().oblige('every field is given, no other',
                     set(kw) == set(struct_class._tuple._fields))
        self.put(struct_class, kw, size // 4)

    # the word watched
    def value(self):
        return self.got[-1][1] if self.got else None


def kind(x):
    t = getattr(x, 'pytype', None)
    if t is None:
        n = type(x).__name__
        t = {'SInt': int, 'SReal': float, 'SStr': str, 'SFmt': str, 'SBV': int}.get(n)
    return t


def field(struct_class, off):
    """(name, format) of the field a struct holds at a word offset."""
    import re
    at = 0
    names = iter(struct_class._tuple._fields)
    for n, f in re.findall(r'(\d*)([a-zA-Z])', struct_class._struct.format):
        n = int(n or 1)
        for _ in range(n if f in 'ifhlq' else 1):
            width = 4 if f in 'if' else n
            if f == 'x':
                name = None
            else:
                name = next(names)
            if at <= off * 4 < at + width:
                return name, f
            at += width
    return None, None


def stream_in(f):
    for v in f.locals.values():
        if isinstance(v, Words):
            return v
    return None


def emit_loop(interp, s, f, seq):
    """for over a symbolic sequence whose turns each write the same number of words."""
    w = stream_in(f)
    if w is None or s.orelse or collected(s.body, []):
        return False
    c = ctx()
    key = ('emit', id(s), f.qual)
    cache = c.state_global.setdefault(key, [])
    inner = set(interp.assigned_in(s.target))
    for b in s.body:
        inner |= interp.assigned_in(b)
    base = {k: v for k, v in f.locals.items() if k not in inner}
    n, start = seq.length, w.pos

    def run(k, pos):
        g = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                  defclass=f.defclass)
        g.selfobj = f.selfobj
        g.locals = dict(base)
        w.pos = pos
        old, oldj = interp.pure, w.jumped
        interp.pure, w.jumped = ({} if old is None else old), False
        try:
            for v in interp.step_items(seq, k):
                interp.assign(s.target, v, g)
                try:
                    interp.block(s.body, g)
                except _Continue:
                    pass
                except _Break:
                    raise Unsupported('a loop that writes and breaks off') from None
                except UnboundLocalError as e:
                    raise Unsupported(f'loop-carried local: {e}') from None
            if w.jumped:
                raise Unsupported(f'loop that moves about the file, line {s.lineno}')
        finally:
            interp.pure, w.jumped = old, oldj
        return w.pos - pos
    mode = c.choose(['measure', 'body', 'past', 'hit'] if w.watch is not None else
                    ['measure', 'body', 'past'])
    k = SInt.var(c.fresh_name('turn'))
    if mode == 'measure':
        c.assume(sand(k >= 0, k < n))
        pos = SInt.var(c.fresh_name('from'))
        w.muted = True
        d = run(k, pos)
        if not cache:
            cache.append(d)
        raise PathEnd
    if not cache:
        # no path through the loop: it is never entered here
        c.oblige('the loop has a measured turn', val_eq(n, 0))
        step = 0
    else:
        step = cache[0]
    if mode == 'body':
        if not cache:
            raise PathEnd
        c.assume(sand(k >= 0, k < n))
        w.watch = None
        d = run(k, start + k * step)
        c.cover('turn')
        c.oblige('every turn writes the same number of words', d == step)
        raise PathEnd
    c.assume(n >= 0)
    end = start + n * step
    if w.watch is not None:
        hit = sand(w.watch >= start, w.watch < end)
        c.assume(hit if mode == 'hit' else mknot(hit))
        if mode == 'hit':
            for h in w.hints:
                if bool(sand(h >= 0, h < n, w.watch >= start + h * step,
                             w.watch < start + (h + 1) * step)):
                    k = h
                    break
            else:
                c.assume(sand(k >= 0, k < n, w.watch >= start + k * step,
                              w.watch < start + (k + 1) * step))
            run(k, start + k * step)
    w.pos = end
    for x in inner:
        f.locals.pop(x, None)
    return True


class Block:
    """What an entry's visit leaves: where its block starts, and one past its end."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Entries:
    """Loops over the rows and columns of a file, writing a pointer and a block for each.

    owner.next_free_word is the first free word.  For an arbitrary entry (grow, gcol):
    once it was visited, its pointer word is not written again, nor any word of its block,
    which lies between the first free word at the start and the present one.
    dims: {'rows': (length, ghost), 'columns': (length, ghost)} (one may be missing)
    table: (first pointer, one past the last); address(w): the pointer of the ghost entry
    """

    names = ('stream',)
    keeps = ()

    def __init__(self, owner, w, first_free, dims, table, pointer, has, arm, check):
        self.owner, self.w, self.nf0, self.dims = owner, w, first_free, dims
        self.table, self.pointer, self.has = table, pointer, has
        self.arm, self.check = arm, check
        self.block = None       # of the ghost entry, when visited
        self.at = {}            # dimension -> index being visited

    def dim_of(self, seq):
        for d, (n, _g) in self.dims.items():
            if d not in self.at and seq.length is n:
                return d
        return None

    def loop(self, interp, s, f, seq):
        w = stream_in(f)
        if w is not self.w:
            return False
        d = self.dim_of(seq)
        if d is None or w.frame != self.frame:
            return False
        c = ctx()
        n, g = self.dims[d]
        mode = c.choose(['body', 'exit'])
        inner = set(interp.assigned_in(s.target))
        for b in s.body:
            inner |= interp.assigned_in(b)
        base = {k: v for k, v in f.locals.items() if k not in inner}
        nf_in = self.owner.next_free_word
        nf = SInt.var(c.fresh_name('free'))
        c.assume(nf >= nf_in)
        k = SInt.var(c.fresh_name('visit'))
        here = all(bool(val_eq(self.at[x], self.dims[x][1])) for x in self.at)
        if mode == 'exit':
            self.owner.next_free_word = nf
            if here and self.block is None and bool(sand(g >= 0, g < n)):
                self.visited(c, nf_in, nf)
            c.assume(n >= 0)
            if bool(n > 0):
                # after the last visit: just past its block, or past its pointer
                last = {**self.at, d: n - 1}
                rest = [x for x in self.dims if x not in last]
                for x in rest:
                    last[x] = self.dims[x][0] - 1
                if any(not bool(self.dims[x][0] > 0) for x in rest):
                    pass
                elif c.choose(['block', 'pointer']) == 'block':
                    w.pos = nf
                else:
                    w.pos = self.address(last) + 1
            for x in inner:
                f.locals.pop(x, None)
            return True
        c.assume(sand(k >= 0, k < n))
        self.owner.next_free_word = nf
        if here and self.block is None and bool(sand(g >= 0, g < k)):
            self.visited(c, nf_in, nf)
        w.pos = SInt.var(c.fresh_name('somewhere'))
        fr = Frame(f.globals, f.info, f.qual, parent=f.parent, closure=f.closure,
                   defclass=f.defclass)
        fr.selfobj = f.selfobj
        fr.locals = dict(base)
        self.at[d] = k
        innermost = len(self.at) == len(self.dims)
        mine = innermost and all(
            bool(val_eq(self.at[x], self.dims[x][1])) for x in self.dims)
        if mine:
            self.arm(nf)
        elif innermost:
            w.watch = None
        try:
            for v in interp.step_items(seq, k):
                interp.assign(s.target, v, fr)
                try:
                    interp.block(s.body, fr)
                except _Continue:
                    pass
        except _Break:
            raise Unsupported('a data loop broken off') from None
        c.cover('entry')
        if mine:
            self.check(nf)
            if self.has:
                lo, hi = nf, self.owner.next_free_word
                c.oblige('the block lies past the pointers', lo >= self.nf0)
                c.oblige('the next free word is past the block', hi >= lo)
        c.oblige('free words are taken in turn', self.owner.next_free_word >= nf)
        end = sor(w.pos == self.owner.next_free_word,
                  w.pos == self.address({**{x: self.dims[x][0] - 1 for x in self.dims},
                                         **self.at}) + 1)
        if innermost:
            c.oblige('left past the block or the pointer', end)
        raise PathEnd

    def visited(self, c, nf_in, nf):
        """The ghost entry was written before: its words are not to be written again."""
        if bool(self.has):
            lo, hi = SInt.var(c.fresh_name('lo')), SInt.var(c.fresh_name('hi'))
            c.assume(sand(nf_in <= lo, lo <= hi, hi <= nf))
            self.block = (lo, hi)
            self.w.blocks.append((lo, hi))
        else:
            self.block = ()
        p = self.pointer
        self.w.blocks.append((p, p + 1))

    def frame(self, lo, hi):
        """A word of the pointer table or past it (entries' words are watched besides)."""
        return lo >= self.table[0]
